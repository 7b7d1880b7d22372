! Calls of the Fortran interface of odc: one command per line, one line of outcome per command.
! "-" is an absent optional argument.  Objects are numbers; number 9 of any kind is never initialised.
module memory
    use, intrinsic :: iso_c_binding
    implicit none
    integer, parameter :: dp = selected_real_kind(15, 307)
    integer, parameter :: i8 = selected_int_kind(15)
    integer, parameter :: guard = 4
    integer(i8), parameter :: filling = int(z'25A5A5A5A5A5A5A5', i8)
    type region
        real(dp), pointer :: buf(:) => null()
        integer :: n = 0
    end type
    type(region), target, save :: mem(0:400)
    integer(i8), save :: seen_context = 0
    integer, save :: seen_error = 0, notified = 0
contains
    subroutine make(id, n)
        integer, intent(in) :: id, n
        if (associated(mem(id)%buf)) deallocate(mem(id)%buf)
        allocate(mem(id)%buf(1 - guard:n + guard))
        mem(id)%n = n
        call wipe(id)
    end subroutine
    subroutine wipe(id)
        integer, intent(in) :: id
        integer :: i
        do i = lbound(mem(id)%buf, 1), ubound(mem(id)%buf, 1)
            mem(id)%buf(i) = transfer(filling, 1.0_dp)
        end do
    end subroutine
    function intact(id) result(ok)
        integer, intent(in) :: id
        logical :: ok
        integer :: i
        ok = .true.
        do i = lbound(mem(id)%buf, 1), ubound(mem(id)%buf, 1)
            if (i < 1 .or. i > mem(id)%n) ok = ok .and. transfer(mem(id)%buf(i), 1_i8) == filling
        end do
    end function
    subroutine handler(context, error)
        integer(i8), intent(in) :: context
        integer, intent(in) :: error
        seen_context = context
        seen_error = error
        notified = notified + 1
    end subroutine
end module

program fdrv
    use, intrinsic :: iso_c_binding
    use, intrinsic :: iso_fortran_env
    use odc
    use memory
    implicit none

    type(odc_reader), save :: reader(9)
    type(odc_frame), save :: frame(9)
    type(odc_decoder), save :: dec(9)
    type(odc_encoder), save :: enc(9)
    character(200000), save :: line
    character(200), save :: tok(2000)
    character(:), allocatable :: reply, s1, s2
    integer :: ntok, ios, err, unit, i, j, k, n, want, k1, k2, k3, k4
    integer(c_long) :: l1
    integer(c_int) :: ci
    integer(c_long) :: cl
    real(c_double) :: cd
    logical :: flag
    logical, allocatable :: o_log
    integer, allocatable :: o_i1, o_i2, o_i3
    integer(c_long), allocatable :: o_l1
    type(c_ptr), allocatable :: o_p
    type(c_ptr) :: p
    real(dp), pointer :: a(:,:)
    real(dp), target :: wide(6, 3)

    unit = -1
    err = odc_initialise_api()
    err = odc_set_failure_handler(handler, 4242_i8)
    do
        read(*, '(a)', iostat=ios) line
        if (ios /= 0) exit
        call split()
        if (ntok == 0) cycle
        reply = ''
        err = 0
        notified = 0
        seen_error = 0
        seen_context = 0
        call run(trim(tok(1)))
        write(*, '(i0,1x,i0,1x,i0,1x,i0,a)', advance='no') err, notified, seen_error, seen_context, reply
        if (err >= 2) write(*, '(a,a)', advance='no') ' # ', single_line(odc_error_string(err))
        write(*, '(a)') ''
        flush(output_unit)
    end do

contains

    subroutine split()
        integer :: pos, stop_
        ntok = 0
        pos = 1
        do
            do while (pos <= len_trim(line))
                if (line(pos:pos) /= ' ') exit
                pos = pos + 1
            end do
            if (pos > len_trim(line)) exit
            stop_ = pos
            do while (stop_ < len_trim(line))
                if (line(stop_ + 1:stop_ + 1) == ' ') exit
                stop_ = stop_ + 1
            end do
            ntok = ntok + 1
            tok(ntok) = line(pos:stop_)
            pos = stop_ + 1
        end do
    end subroutine

    function single_line(s) result(r)
        character(*), intent(in) :: s
        character(len(s)) :: r
        integer :: q
        r = s
        do q = 1, len(r)
            if (ichar(r(q:q)) < 32) r(q:q) = ' '
        end do
    end function

    function num(q) result(v)
        integer, intent(in) :: q
        integer :: v
        read(tok(q), *) v
    end function

    function lnum(q) result(v)
        integer, intent(in) :: q
        integer(c_long) :: v
        read(tok(q), *) v
    end function

    subroutine opt_int(q, v)
        integer, intent(in) :: q
        integer, allocatable, intent(inout) :: v
        if (allocated(v)) deallocate(v)
        if (tok(q) /= '-') then
            allocate(v)
            v = num(q)
        end if
    end subroutine

    subroutine opt_long(q, v)
        integer, intent(in) :: q
        integer(c_long), allocatable, intent(inout) :: v
        if (allocated(v)) deallocate(v)
        if (tok(q) /= '-') then
            allocate(v)
            v = lnum(q)
        end if
    end subroutine

    subroutine opt_log(q, v)
        integer, intent(in) :: q
        logical, allocatable, intent(inout) :: v
        if (allocated(v)) deallocate(v)
        if (tok(q) /= '-') then
            allocate(v)
            v = (tok(q) == 'T')
        end if
    end subroutine

    subroutine opt_mem(q, v)
        integer, intent(in) :: q
        type(c_ptr), allocatable, intent(inout) :: v
        if (allocated(v)) deallocate(v)
        if (tok(q) /= '-') then
            allocate(v)
            v = c_loc(mem(num(q))%buf(1))
        end if
    end subroutine

    subroutine say(s)
        character(*), intent(in) :: s
        if (len(s) == 0) then
            reply = reply // ' ""'
        else
            reply = reply // ' ' // s
        end if
    end subroutine

    subroutine sayi(v)
        integer(i8), intent(in) :: v
        character(24) :: b
        write(b, '(i0)') v
        reply = reply // ' ' // trim(b)
    end subroutine

    subroutine sayl(v)
        logical, intent(in) :: v
        if (v) then
            reply = reply // ' T'
        else
            reply = reply // ' F'
        end if
    end subroutine

    subroutine sayw(v)
        real(dp), intent(in) :: v
        character(16) :: b
        write(b, '(z16.16)') transfer(v, 1_i8)
        reply = reply // ' ' // b
    end subroutine

    ! which memory an address lies in, and where; "owned" if in none
    subroutine sayp(v)
        type(c_ptr), intent(in) :: v
        integer :: q
        integer(i8) :: at, from
        at = transfer(v, at)
        do q = 0, ubound(mem, 1)
            if (.not. associated(mem(q)%buf)) cycle
            from = transfer(c_loc(mem(q)%buf(1)), from)
            if (at >= from .and. at < from + 8 * max(mem(q)%n, 1)) then
                call sayi(int(q, i8))
                call sayi(at - from)
                return
            end if
        end do
        call say('owned')
        call sayi(0_i8)
    end subroutine

    subroutine run(what)
        character(*), intent(in) :: what
        select case (what)
        case ('sync')
            call say('sync')
            call say(trim(tok(2)))
        case ('reset')
            if (unit /= -1) close(unit)
            unit = -1
            do i = 1, 8
                if (c_associated(frame(i)%impl)) err = frame(i)%free()
                if (c_associated(dec(i)%impl)) err = dec(i)%free()
                if (c_associated(enc(i)%impl)) err = enc(i)%free()
                frame(i)%impl = c_null_ptr
                dec(i)%impl = c_null_ptr
                enc(i)%impl = c_null_ptr
            end do
            do i = 1, 8
                if (c_associated(reader(i)%impl)) err = reader(i)%close()
                reader(i)%impl = c_null_ptr
            end do
            do i = 0, ubound(mem, 1)
                if (associated(mem(i)%buf)) deallocate(mem(i)%buf)
                mem(i)%buf => null()
            end do
            err = odc_set_failure_handler(handler, int(lnum(2), i8))
        case ('behaviour')
            err = odc_integer_behaviour(int(num(2), c_int))
        case ('setmissint')
            err = odc_set_missing_integer(lnum(2))
        case ('setmissdbl')
            read(tok(2), *) cd
            err = odc_set_missing_double(cd)
        case ('getmissint')
            err = odc_missing_integer(cl)
            call sayi(int(cl, i8))
        case ('getmissdbl')
            err = odc_missing_double(cd)
            call sayw(real(cd, dp))
        case ('typename')
            err = odc_column_type_name(int(num(2), c_int), s1)
            if (err == 0) call say(s1)
        case ('typecount')
            err = odc_column_type_count(ci)
            call sayi(int(ci, i8))
        case ('version')
            err = odc_version(s1)
            if (err == 0) call say(s1)
        case ('vcs')
            err = odc_vcs_version(s1)
            if (err == 0) call say(s1)
        case ('errstr')
            call say(single_line(odc_error_string(num(2))))

        ! readers and frames
        case ('open')
            err = reader(num(2))%open_path(tok(3))
        case ('close')
            err = reader(num(2))%close()
        case ('finit')
            err = frame(num(2))%initialise(reader(num(3)))
        case ('ffree')
            err = frame(num(2))%free()
            frame(num(2))%impl = c_null_ptr
        case ('copy')
            err = frame(num(2))%copy(frame(num(3)))
        case ('next')
            call opt_log(3, o_log)
            call opt_long(4, o_l1)
            err = frame(num(2))%next(aggregated=o_log, maximum_rows=o_l1)
        case ('rows')
            err = frame(num(2))%row_count(l1)
            if (err == 0) call sayi(int(l1, i8))
        case ('cols')
            err = frame(num(2))%column_count(ci)
            if (err == 0) call sayi(int(ci, i8))
        case ('attr')
            want = num(4)
            i = num(2)
            j = num(3)
            k1 = -77; k2 = -77; k3 = -77; k4 = -77
            s1 = '-'
            if (want == 31) then
                err = frame(i)%column_attributes(j, s1, k1, k2, k3, k4)
            else if (iand(want, 1) /= 0) then
                err = frame(i)%column_attributes(j, name=s1)
            else if (iand(want, 2) /= 0) then
                err = frame(i)%column_attributes(j, type=k1, bitfield_count=k4)
            else if (iand(want, 4) /= 0) then
                err = frame(i)%column_attributes(j, element_size_doubles=k3)
            else if (iand(want, 8) /= 0) then
                err = frame(i)%column_attributes(j, element_size=k2)
            else
                err = frame(i)%column_attributes(j)
            end if
            if (.not. allocated(s1)) s1 = '?'
            call say(s1)
            call sayi(int(k1, i8))
            call sayi(int(k2, i8))
            call sayi(int(k3, i8))
            call sayi(int(k4, i8))
        case ('bit')
            i = num(2)
            j = num(3)
            k = num(4)
            want = num(5)
            k1 = -77; k2 = -77
            s1 = '-'
            if (iand(want, 3) == 3) then
                err = frame(i)%bitfield_attributes(j, k, s1, k1, k2)
            else if (iand(want, 1) /= 0) then
                err = frame(i)%bitfield_attributes(j, k, name=s1)
            else if (iand(want, 2) /= 0) then
                err = frame(i)%bitfield_attributes(j, k, offset=k1)
            else
                err = frame(i)%bitfield_attributes(j, k, size=k2)
            end if
            if (.not. allocated(s1)) s1 = '?'
            call say(s1)
            call sayi(int(k1, i8))
            call sayi(int(k2, i8))
        case ('props')
            err = frame(num(2))%properties_count(k1)
            if (err == 0) call sayi(int(k1, i8))
        case ('prop_idx')
            err = frame(num(2))%property_idx(num(3), s1, s2)
            if (err == 0) then
                call say(s1)
                call say(s2)
            end if
        case ('prop')
            want = iand(num(4), 3)
            i = num(2)
            flag = .false.
            s1 = '-'
            if (want == 3) then
                err = frame(i)%property(tok(3), s1, flag)
            else if (want == 1) then
                err = frame(i)%property(tok(3), val=s1)
            else if (want == 2) then
                err = frame(i)%property(tok(3), exists=flag)
            else
                err = frame(i)%property(tok(3))
            end if
            if (.not. allocated(s1)) s1 = '?'
            call sayl(flag)
            call say(s1)

        ! memory
        case ('mem')
            call make(num(2), num(3))
            do i = 4, ntok
                read(tok(i), '(z16)') l1
                mem(num(2))%buf(i - 3) = transfer(l1, 1.0_dp)
            end do
        case ('fill')
            call wipe(num(2))
        case ('look')
            k = num(2)
            call sayl(intact(k))
            do i = 1, mem(k)%n
                call sayw(mem(k)%buf(i))
            end do

        ! decoders
        case ('dinit')
            call opt_log(3, o_log)
            err = dec(num(2))%initialise(o_log)
        case ('dfree')
            err = dec(num(2))%free()
            dec(num(2))%impl = c_null_ptr
        case ('ddefaults')
            err = dec(num(2))%defaults_from_frame(frame(num(3)))
        case ('dadd')
            err = dec(num(2))%add_column(tok(3))
        case ('drows')
            err = dec(num(2))%set_row_count(lnum(3))
        case ('drowcount')
            err = dec(num(2))%row_count(l1)
            if (err == 0) call sayi(int(l1, i8))
        case ('dcolcount')
            err = dec(num(2))%column_count(k1)
            if (err == 0) call sayi(int(k1, i8))
        case ('darray')
            ! memory, extents, layout
            call opt_log(6, o_log)
            a(1:num(4), 1:num(5)) => mem(num(3))%buf(1:num(4) * num(5))
            err = dec(num(2))%set_data(a, o_log)
        case ('dsize')
            err = dec(num(2))%column_set_data_size(num(3), int(num(4), c_int))
        case ('down')
            call opt_int(4, o_i1)
            call opt_int(5, o_i2)
            call opt_mem(6, o_p)
            err = dec(num(2))%column_set_data_array(num(3), element_size=o_i1, stride=o_i2, data=o_p)
        case ('decode')
            call opt_int(4, o_i1)
            l1 = -77
            err = dec(num(2))%decode(frame(num(3)), l1, o_i1)
            call sayi(int(l1, i8))
        case ('ddata')
            nullify(a)
            err = dec(num(2))%data(a, flag)
            if (err == 0) then
                call sayl(flag)
                call sayi(size(a, 1, i8))
                call sayi(size(a, 2, i8))
                call sayp(c_loc(a(1, 1)))
                if (num(3) == 1) then
                    do j = 1, size(a, 2)
                        do i = 1, size(a, 1)
                            call sayw(a(i, j))
                        end do
                    end do
                end if
                flag = .not. flag
                k1 = dec(num(2))%data(column_major=flag)
                call sayl(flag)
            end if
        case ('dcol')
            k1 = -77; k2 = -77; k3 = -77; k4 = -77
            err = dec(num(2))%column_data_array(num(3), element_size=k1, stride=k3, data=p)
            if (err == 0) then
                err = dec(num(2))%column_data_array(num(3), element_size_doubles=k2)
                call sayi(int(k1, i8))
                call sayi(int(k2, i8))
                call sayi(int(k3, i8))
                call sayp(p)
            end if

        ! encoders
        case ('einit')
            err = enc(num(2))%initialise()
        case ('efree')
            err = enc(num(2))%free()
            enc(num(2))%impl = c_null_ptr
        case ('eadd')
            err = enc(num(2))%add_column(tok(3), num(4))
        case ('erows')
            err = enc(num(2))%set_row_count(lnum(3))
        case ('erpf')
            err = enc(num(2))%set_rows_per_frame(lnum(3))
        case ('eprop')
            err = enc(num(2))%add_property(tok(3), tok(4))
        case ('ebits')
            err = enc(num(2))%column_add_bitfield(num(3), tok(4), num(5))
        case ('earray')
            call opt_log(6, o_log)
            a(1:num(4), 1:num(5)) => mem(num(3))%buf(1:num(4) * num(5))
            err = enc(num(2))%set_data(a, o_log)
        case ('esize')
            call opt_int(4, o_i1)
            call opt_int(5, o_i2)
            err = enc(num(2))%column_set_data_size(num(3), element_size=o_i1, element_size_doubles=o_i2)
        case ('eown')
            call opt_int(4, o_i1)
            call opt_int(5, o_i2)
            call opt_int(6, o_i3)
            call opt_mem(7, o_p)
            err = enc(num(2))%column_set_data_array(num(3), element_size=o_i1, element_size_doubles=o_i2, stride=o_i3, data=o_p)
        case ('unit')
            if (tok(2) == 'new') then
                open(newunit=unit, file=trim(tok(3)), access='stream', form='unformatted', action='write', status='replace')
            else if (tok(2) == 'append') then
                open(newunit=unit, file=trim(tok(3)), access='stream', form='unformatted', action='write', status='old', &
                     position='append')
            else
                open(newunit=unit, file=trim(tok(3)), access='stream', form='unformatted', action='read', status='old')
            end if
        case ('unitclose')
            close(unit)
            unit = -1
        case ('encode')
            l1 = -77
            err = enc(num(2))%encode(unit, l1)
            call sayi(int(l1, i8))
        ! a part of an array that is not contiguous in memory
        case ('dsection')
            wide = 0
            err = dec(num(2))%set_data(wide(1:num(3):num(4), :))
        case ('esection')
            wide = 0
            err = enc(num(2))%set_data(wide(1:num(3):num(4), :))
        case default
            call say('unknown')
            err = 99
        end select
    end subroutine

end program
