! Thin Fortran callers of the Fortran modules shipped with the library

subroutine drvf_fft2d_create(comm,precision,ptr) bind(c,name="drvf_fft2d_create")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  integer(c_int), value :: comm,precision
  type(c_ptr) :: ptr
  call fft2d_create(comm,precision,ptr)
end subroutine drvf_fft2d_create

subroutine drvf_fft2d_destroy(ptr) bind(c,name="drvf_fft2d_destroy")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  call fft2d_destroy(ptr)
end subroutine drvf_fft2d_destroy

subroutine drvf_fft2d_set(ptr,keyword,val) bind(c,name="drvf_fft2d_set")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int), value :: val
  call fft2d_set(ptr,keyword,val)
end subroutine drvf_fft2d_set

function drvf_fft2d_get_int(ptr,keyword) bind(c,name="drvf_fft2d_get_int") result(res)
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: res
  res = fft2d_get_int(ptr,keyword)
end function drvf_fft2d_get_int

function drvf_fft2d_get_double(ptr,keyword) bind(c,name="drvf_fft2d_get_double") result(res)
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  real(c_double) :: res
  res = fft2d_get_double(ptr,keyword)
end function drvf_fft2d_get_double

function drvf_fft2d_get_int64(ptr,keyword) bind(c,name="drvf_fft2d_get_int64") result(res)
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int64_t) :: res
  res = fft2d_get_int64(ptr,keyword)
end function drvf_fft2d_get_int64

function drvf_fft2d_get_string(ptr,keyword,length) bind(c,name="drvf_fft2d_get_string") result(res)
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: length
  type(c_ptr) :: res
  res = fft2d_get_string(ptr,keyword,length)
end function drvf_fft2d_get_string

function drvf_fft2d_get_int_vector(ptr,keyword,length) bind(c,name="drvf_fft2d_get_int_vector") result(res)
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: length
  type(c_ptr) :: res
  res = fft2d_get_int_vector(ptr,keyword,length)
end function drvf_fft2d_get_int_vector

function drvf_fft2d_get_double_vector(ptr,keyword,length) bind(c,name="drvf_fft2d_get_double_vector") result(res)
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: length
  type(c_ptr) :: res
  res = fft2d_get_double_vector(ptr,keyword,length)
end function drvf_fft2d_get_double_vector

subroutine drvf_fft2d_setup(ptr,nfast,nslow,in_ilo,in_ihi,in_jlo, &
    in_jhi,out_ilo,out_ihi,out_jlo,out_jhi,permute, &
    fftsize,sendsize,recvsize) bind(c,name="drvf_fft2d_setup")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  integer(c_int), value :: nfast,nslow
  integer(c_int), value :: in_ilo,in_ihi,in_jlo,in_jhi
  integer(c_int), value :: out_ilo,out_ihi,out_jlo,out_jhi
  integer(c_int), value :: permute
  integer(c_int) :: fftsize,sendsize,recvsize
  call fft2d_setup(ptr,nfast,nslow,in_ilo,in_ihi,in_jlo, &
    in_jhi,out_ilo,out_ihi,out_jlo,out_jhi,permute, &
    fftsize,sendsize,recvsize)
end subroutine drvf_fft2d_setup

subroutine drvf_fft2d_tune(ptr,nfast,nslow,in_ilo,in_ihi,in_jlo, &
    in_jhi,out_ilo,out_ihi,out_jlo,out_jhi,permute, &
    fftsize,sendsize,recvsize,flag,niter,tmax, &
    tflag) bind(c,name="drvf_fft2d_tune")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  integer(c_int), value :: nfast,nslow
  integer(c_int), value :: in_ilo,in_ihi,in_jlo,in_jhi
  integer(c_int), value :: out_ilo,out_ihi,out_jlo,out_jhi
  integer(c_int), value :: permute
  integer(c_int) :: fftsize,sendsize,recvsize
  integer(c_int), value :: flag,niter
  real(c_double), value :: tmax
  integer(c_int), value :: tflag
  call fft2d_tune(ptr,nfast,nslow,in_ilo,in_ihi,in_jlo, &
    in_jhi,out_ilo,out_ihi,out_jlo,out_jhi,permute, &
    fftsize,sendsize,recvsize,flag,niter,tmax, &
    tflag)
end subroutine drvf_fft2d_tune

subroutine drvf_fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c,name="drvf_fft2d_setup_memory")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: sendbuf,recvbuf
  call fft2d_setup_memory(ptr,sendbuf,recvbuf)
end subroutine drvf_fft2d_setup_memory

subroutine drvf_fft2d_compute(ptr,in,out,flag) bind(c,name="drvf_fft2d_compute")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out
  integer(c_int), value :: flag
  call fft2d_compute(ptr,in,out,flag)
end subroutine drvf_fft2d_compute

subroutine drvf_fft2d_only_1d_ffts(ptr,in,flag) bind(c,name="drvf_fft2d_only_1d_ffts")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in
  integer(c_int), value :: flag
  call fft2d_only_1d_ffts(ptr,in,flag)
end subroutine drvf_fft2d_only_1d_ffts

subroutine drvf_fft2d_only_remaps(ptr,in,out,flag) bind(c,name="drvf_fft2d_only_remaps")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out
  integer(c_int), value :: flag
  call fft2d_only_remaps(ptr,in,out,flag)
end subroutine drvf_fft2d_only_remaps

subroutine drvf_fft2d_only_one_remap(ptr,in,out,flag,which) bind(c,name="drvf_fft2d_only_one_remap")
  use iso_c_binding
  use fft2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out
  integer(c_int), value :: flag,which
  call fft2d_only_one_remap(ptr,in,out,flag,which)
end subroutine drvf_fft2d_only_one_remap

subroutine drvf_remap2d_create(comm,ptr) bind(c,name="drvf_remap2d_create")
  use iso_c_binding
  use remap2d_wrap
  implicit none
  integer(c_int), value :: comm
  type(c_ptr) :: ptr
  call remap2d_create(comm,ptr)
end subroutine drvf_remap2d_create

subroutine drvf_remap2d_destroy(ptr) bind(c,name="drvf_remap2d_destroy")
  use iso_c_binding
  use remap2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  call remap2d_destroy(ptr)
end subroutine drvf_remap2d_destroy

subroutine drvf_remap2d_set(ptr,keyword,val) bind(c,name="drvf_remap2d_set")
  use iso_c_binding
  use remap2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int), value :: val
  call remap2d_set(ptr,keyword,val)
end subroutine drvf_remap2d_set

subroutine drvf_remap2d_setup(ptr,in_ilo,in_ihi,in_jlo,in_jhi,out_ilo, &
    out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag, &
    sendsize,recvsize) bind(c,name="drvf_remap2d_setup")
  use iso_c_binding
  use remap2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  integer(c_int), value :: in_ilo,in_ihi,in_jlo,in_jhi
  integer(c_int), value :: out_ilo,out_ihi,out_jlo,out_jhi
  integer(c_int), value :: nqty,permute,memoryflag
  integer(c_int) :: sendsize,recvsize
  call remap2d_setup(ptr,in_ilo,in_ihi,in_jlo,in_jhi,out_ilo, &
    out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag, &
    sendsize,recvsize)
end subroutine drvf_remap2d_setup

subroutine drvf_remap2d_remap(ptr,in,out,sendbuf,recvbuf) bind(c,name="drvf_remap2d_remap")
  use iso_c_binding
  use remap2d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out,sendbuf,recvbuf
  call remap2d_remap(ptr,in,out,sendbuf,recvbuf)
end subroutine drvf_remap2d_remap

subroutine drvf_fft3d_create(comm,precision,ptr) bind(c,name="drvf_fft3d_create")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  integer(c_int), value :: comm,precision
  type(c_ptr) :: ptr
  call fft3d_create(comm,precision,ptr)
end subroutine drvf_fft3d_create

subroutine drvf_fft3d_destroy(ptr) bind(c,name="drvf_fft3d_destroy")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  call fft3d_destroy(ptr)
end subroutine drvf_fft3d_destroy

subroutine drvf_fft3d_set(ptr,keyword,val) bind(c,name="drvf_fft3d_set")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int), value :: val
  call fft3d_set(ptr,keyword,val)
end subroutine drvf_fft3d_set

function drvf_fft3d_get_int(ptr,keyword) bind(c,name="drvf_fft3d_get_int") result(res)
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: res
  res = fft3d_get_int(ptr,keyword)
end function drvf_fft3d_get_int

function drvf_fft3d_get_double(ptr,keyword) bind(c,name="drvf_fft3d_get_double") result(res)
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  real(c_double) :: res
  res = fft3d_get_double(ptr,keyword)
end function drvf_fft3d_get_double

function drvf_fft3d_get_int64(ptr,keyword) bind(c,name="drvf_fft3d_get_int64") result(res)
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int64_t) :: res
  res = fft3d_get_int64(ptr,keyword)
end function drvf_fft3d_get_int64

function drvf_fft3d_get_string(ptr,keyword,length) bind(c,name="drvf_fft3d_get_string") result(res)
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: length
  type(c_ptr) :: res
  res = fft3d_get_string(ptr,keyword,length)
end function drvf_fft3d_get_string

function drvf_fft3d_get_int_vector(ptr,keyword,length) bind(c,name="drvf_fft3d_get_int_vector") result(res)
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: length
  type(c_ptr) :: res
  res = fft3d_get_int_vector(ptr,keyword,length)
end function drvf_fft3d_get_int_vector

function drvf_fft3d_get_double_vector(ptr,keyword,length) bind(c,name="drvf_fft3d_get_double_vector") result(res)
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int) :: length
  type(c_ptr) :: res
  res = fft3d_get_double_vector(ptr,keyword,length)
end function drvf_fft3d_get_double_vector

subroutine drvf_fft3d_setup(ptr,nfast,nmid,nslow,in_ilo,in_ihi, &
    in_jlo,in_jhi,in_klo,in_khi,out_ilo,out_ihi, &
    out_jlo,out_jhi,out_klo,out_khi,permute,fftsize, &
    sendsize,recvsize) bind(c,name="drvf_fft3d_setup")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  integer(c_int), value :: nfast,nmid,nslow
  integer(c_int), value :: in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi
  integer(c_int), value :: out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi
  integer(c_int), value :: permute
  integer(c_int) :: fftsize,sendsize,recvsize
  call fft3d_setup(ptr,nfast,nmid,nslow,in_ilo,in_ihi, &
    in_jlo,in_jhi,in_klo,in_khi,out_ilo,out_ihi, &
    out_jlo,out_jhi,out_klo,out_khi,permute,fftsize, &
    sendsize,recvsize)
end subroutine drvf_fft3d_setup

subroutine drvf_fft3d_tune(ptr,nfast,nmid,nslow,in_ilo,in_ihi, &
    in_jlo,in_jhi,in_klo,in_khi,out_ilo,out_ihi, &
    out_jlo,out_jhi,out_klo,out_khi,permute,fftsize, &
    sendsize,recvsize,flag,niter,tmax,tflag) bind(c,name="drvf_fft3d_tune")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  integer(c_int), value :: nfast,nmid,nslow
  integer(c_int), value :: in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi
  integer(c_int), value :: out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi
  integer(c_int), value :: permute
  integer(c_int) :: fftsize,sendsize,recvsize
  integer(c_int), value :: flag,niter
  real(c_double), value :: tmax
  integer(c_int), value :: tflag
  call fft3d_tune(ptr,nfast,nmid,nslow,in_ilo,in_ihi, &
    in_jlo,in_jhi,in_klo,in_khi,out_ilo,out_ihi, &
    out_jlo,out_jhi,out_klo,out_khi,permute,fftsize, &
    sendsize,recvsize,flag,niter,tmax,tflag)
end subroutine drvf_fft3d_tune

subroutine drvf_fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c,name="drvf_fft3d_setup_memory")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: sendbuf,recvbuf
  call fft3d_setup_memory(ptr,sendbuf,recvbuf)
end subroutine drvf_fft3d_setup_memory

subroutine drvf_fft3d_compute(ptr,in,out,flag) bind(c,name="drvf_fft3d_compute")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out
  integer(c_int), value :: flag
  call fft3d_compute(ptr,in,out,flag)
end subroutine drvf_fft3d_compute

subroutine drvf_fft3d_only_1d_ffts(ptr,in,flag) bind(c,name="drvf_fft3d_only_1d_ffts")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in
  integer(c_int), value :: flag
  call fft3d_only_1d_ffts(ptr,in,flag)
end subroutine drvf_fft3d_only_1d_ffts

subroutine drvf_fft3d_only_remaps(ptr,in,out,flag) bind(c,name="drvf_fft3d_only_remaps")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out
  integer(c_int), value :: flag
  call fft3d_only_remaps(ptr,in,out,flag)
end subroutine drvf_fft3d_only_remaps

subroutine drvf_fft3d_only_one_remap(ptr,in,out,flag,which) bind(c,name="drvf_fft3d_only_one_remap")
  use iso_c_binding
  use fft3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out
  integer(c_int), value :: flag,which
  call fft3d_only_one_remap(ptr,in,out,flag,which)
end subroutine drvf_fft3d_only_one_remap

subroutine drvf_remap3d_create(comm,ptr) bind(c,name="drvf_remap3d_create")
  use iso_c_binding
  use remap3d_wrap
  implicit none
  integer(c_int), value :: comm
  type(c_ptr) :: ptr
  call remap3d_create(comm,ptr)
end subroutine drvf_remap3d_create

subroutine drvf_remap3d_destroy(ptr) bind(c,name="drvf_remap3d_destroy")
  use iso_c_binding
  use remap3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  call remap3d_destroy(ptr)
end subroutine drvf_remap3d_destroy

subroutine drvf_remap3d_set(ptr,keyword,val) bind(c,name="drvf_remap3d_set")
  use iso_c_binding
  use remap3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  character(kind=c_char) :: keyword(*)
  integer(c_int), value :: val
  call remap3d_set(ptr,keyword,val)
end subroutine drvf_remap3d_set

subroutine drvf_remap3d_setup(ptr,in_ilo,in_ihi,in_jlo,in_jhi,in_klo, &
    in_khi,out_ilo,out_ihi,out_jlo,out_jhi,out_klo, &
    out_khi,nqty,permute,memoryflag,sendsize,recvsize) bind(c,name="drvf_remap3d_setup")
  use iso_c_binding
  use remap3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  integer(c_int), value :: in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi
  integer(c_int), value :: out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi
  integer(c_int), value :: nqty,permute,memoryflag
  integer(c_int) :: sendsize,recvsize
  call remap3d_setup(ptr,in_ilo,in_ihi,in_jlo,in_jhi,in_klo, &
    in_khi,out_ilo,out_ihi,out_jlo,out_jhi,out_klo, &
    out_khi,nqty,permute,memoryflag,sendsize,recvsize)
end subroutine drvf_remap3d_setup

subroutine drvf_remap3d_remap(ptr,in,out,sendbuf,recvbuf) bind(c,name="drvf_remap3d_remap")
  use iso_c_binding
  use remap3d_wrap
  implicit none
  type(c_ptr), value :: ptr
  type(c_ptr), value :: in,out,sendbuf,recvbuf
  call remap3d_remap(ptr,in,out,sendbuf,recvbuf)
end subroutine drvf_remap3d_remap
