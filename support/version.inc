interface
  subroutine print_version (command_name) bind(c)
    use iso_c_binding
    character(kind=c_char), intent(in) :: command_name(*)
  end subroutine print_version
end interface

INTEGER, PARAMETER :: EXIT_SUCCESS = 0
INTEGER, PARAMETER :: EXIT_FAILURE = 1
