! What a Fortran program does with the module asagi; level < 0 and similar: the argument is left out
module fapi
  use, intrinsic :: iso_c_binding
  use asagi
  implicit none
contains
  function str(s, n)
    character(kind=c_char), intent(in) :: s(*)
    integer(c_int), intent(in) :: n
    character(len=n) :: str
    integer :: i
    do i = 1, n
      str(i:i) = s(i)
    end do
  end function
  function fx_create(t) bind(c, name="fx_asagi_grid_create") result(r)
    integer(c_int), value :: t
    integer(c_int) :: r
    if (t == ASAGI_FLOAT) then
      r = asagi_grid_create()
    else
      r = asagi_grid_create(t)
    end if
  end function
  function fx_create_array(t) bind(c, name="fx_asagi_grid_create_array") result(r)
    integer(c_int), value :: t
    integer(c_int) :: r
    if (t == ASAGI_FLOAT) then
      r = asagi_grid_create_array()
    else
      r = asagi_grid_create_array(t)
    end if
  end function
  function fx_create_struct(n, b, d, t) bind(c, name="fx_asagi_grid_create_struct") result(r)
    integer(c_int), value :: n
    integer(c_int), intent(in) :: b(*), t(*)
    integer(c_long), intent(in) :: d(*)
    integer(c_int) :: r
    r = asagi_grid_create_struct(n, b, d, t)
  end function
  subroutine fx_set_comm(g, c) bind(c, name="fx_asagi_grid_set_comm")
    integer(c_int), value :: g, c
    call asagi_grid_set_comm(g, c)
  end subroutine
  subroutine fx_set_threads(g, n) bind(c, name="fx_asagi_grid_set_threads")
    integer(c_int), value :: g, n
    call asagi_grid_set_threads(g, n)
  end subroutine
  subroutine fx_set_param(g, n, nl, v, vl, l) bind(c, name="fx_asagi_grid_set_param")
    integer(c_int), value :: g, nl, vl, l
    character(kind=c_char), intent(in) :: n(*), v(*)
    if (l == 0) then
      call asagi_grid_set_param(g, str(n, nl), str(v, vl))
    else
      call asagi_grid_set_param(g, str(n, nl), str(v, vl), l)
    end if
  end subroutine
  function fx_open(g, n, nl, l) bind(c, name="fx_asagi_grid_open") result(r)
    integer(c_int), value :: g, nl, l
    character(kind=c_char), intent(in) :: n(*)
    integer(c_int) :: r
    if (l == 0) then
      r = asagi_grid_open(g, str(n, nl))
    else
      r = asagi_grid_open(g, str(n, nl), l)
    end if
  end function
  function fx_dimensions(g) bind(c, name="fx_asagi_grid_dimensions") result(r)
    integer(c_int), value :: g
    integer(c_int) :: r
    r = asagi_grid_dimensions(g)
  end function
  function fx_var_size(g) bind(c, name="fx_asagi_grid_var_size") result(r)
    integer(c_int), value :: g
    integer(c_int) :: r
    r = asagi_grid_var_size(g)
  end function
  function fx_min(g, n) bind(c, name="fx_asagi_grid_min") result(r)
    integer(c_int), value :: g, n
    real(c_double) :: r
    r = asagi_grid_min(g, n)
  end function
  function fx_max(g, n) bind(c, name="fx_asagi_grid_max") result(r)
    integer(c_int), value :: g, n
    real(c_double) :: r
    r = asagi_grid_max(g, n)
  end function
  function fx_delta(g, n, l) bind(c, name="fx_asagi_grid_delta") result(r)
    integer(c_int), value :: g, n, l
    real(c_double) :: r
    if (l == 0) then
      r = asagi_grid_delta(g, n)
    else
      r = asagi_grid_delta(g, n, l)
    end if
  end function
  function fx_get_byte(g, p, l) bind(c, name="fx_asagi_grid_get_byte") result(r)
    integer(c_int), value :: g, l
    real(c_double), intent(in) :: p(*)
    integer(c_int8_t) :: r
    if (l == 0) then
      r = transfer(asagi_grid_get_byte(g, p), r)
    else
      r = transfer(asagi_grid_get_byte(g, p, l), r)
    end if
  end function
  function fx_get_int(g, p, l) bind(c, name="fx_asagi_grid_get_int") result(r)
    integer(c_int), value :: g, l
    real(c_double), intent(in) :: p(*)
    integer(c_int) :: r
    if (l == 0) then
      r = asagi_grid_get_int(g, p)
    else
      r = asagi_grid_get_int(g, p, l)
    end if
  end function
  function fx_get_long(g, p, l) bind(c, name="fx_asagi_grid_get_long") result(r)
    integer(c_int), value :: g, l
    real(c_double), intent(in) :: p(*)
    integer(c_long) :: r
    if (l == 0) then
      r = asagi_grid_get_long(g, p)
    else
      r = asagi_grid_get_long(g, p, l)
    end if
  end function
  function fx_get_float(g, p, l) bind(c, name="fx_asagi_grid_get_float") result(r)
    integer(c_int), value :: g, l
    real(c_double), intent(in) :: p(*)
    real(c_float) :: r
    if (l == 0) then
      r = asagi_grid_get_float(g, p)
    else
      r = asagi_grid_get_float(g, p, l)
    end if
  end function
  function fx_get_double(g, p, l) bind(c, name="fx_asagi_grid_get_double") result(r)
    integer(c_int), value :: g, l
    real(c_double), intent(in) :: p(*)
    real(c_double) :: r
    if (l == 0) then
      r = asagi_grid_get_double(g, p)
    else
      r = asagi_grid_get_double(g, p, l)
    end if
  end function
  subroutine fx_get_buf(g, b, p, l) bind(c, name="fx_asagi_grid_get_buf")
    integer(c_int), value :: g, l
    type(c_ptr), value :: b
    real(c_double), intent(in) :: p(*)
    type(c_ptr) :: q
    q = b
    if (l == 0) then
      call asagi_grid_get_buf(g, q, p)
    else
      call asagi_grid_get_buf(g, q, p, l)
    end if
  end subroutine
  subroutine fx_close(g) bind(c, name="fx_asagi_grid_close")
    integer(c_int), value :: g
    call asagi_grid_close(g)
  end subroutine
  function fx_start(c, m) bind(c, name="fx_asagi_start_comm_thread") result(r)
    integer(c_int), value :: c, m
    integer(c_int) :: r
    r = asagi_start_comm_thread(c, m)
  end function
  subroutine fx_stop() bind(c, name="fx_asagi_stop_comm_thread")
    call asagi_stop_comm_thread()
  end subroutine
  function fx_local(m) bind(c, name="fx_asagi_node_local_rank") result(r)
    integer(c_int), value :: m
    integer(c_int) :: r
    r = asagi_node_local_rank(m)
  end function
  function fx_const(i) bind(c, name="fx_const") result(r)
    integer(c_int), value :: i
    integer(c_int) :: r
    integer(c_int), parameter :: v(0:17) = [ &
      ASAGI_BYTE, &
      ASAGI_INT, &
      ASAGI_LONG, &
      ASAGI_FLOAT, &
      ASAGI_DOUBLE, &
      ASAGI_SUCCESS, &
      ASAGI_MPI_ERROR, &
      ASAGI_THREAD_ERROR, &
      ASAGI_NUMA_ERROR, &
      ASAGI_UNKNOWN_PARAM, &
      ASAGI_INVALID_VALUE, &
      ASAGI_NOT_INITIALIZED, &
      ASAGI_ALREADY_INITIALIZED, &
      ASAGI_NOT_OPEN, &
      ASAGI_VAR_NOT_FOUND, &
      ASAGI_WRONG_SIZE, &
      ASAGI_UNSUPPORTED_DIMENSIONS, &
      ASAGI_INVALID_VAR_SIZE ]
    r = v(i)
  end function
end module
