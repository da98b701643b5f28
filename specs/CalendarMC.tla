------------------------------ MODULE CalendarMC -------------------------------
(* Day by day from 17 November 1858: the closed forms follow the calendar.      *)
EXTENDS Calendar
CONSTANT LAST
VARIABLES date, mjd, wd
Init == date = <<1858, 11, 17>> /\ mjd = 0 /\ wd = 3
NextDay(x) == IF x[3] < MonthLen(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>>
              ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
Next == mjd < LAST /\ date' = NextDay(date) /\ mjd' = mjd + 1 /\ wd' = (wd % 7) + 1
Agrees == Civil(mjd) = date /\ DayNo(date[1], date[2], date[3]) = mjd /\ WeekDay(mjd) = wd
Doy == YearDay(mjd) = Before(date[1], date[2]) + date[3]
Known == /\ mjd = 44244 => date = <<1980, 1, 6>> /\ wd = 7
         /\ mjd = 40587 => date = <<1970, 1, 1>>
===============================================================================
