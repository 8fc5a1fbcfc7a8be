package FastSleep; # waiting loops of the program under test turn quickly
use strict; use warnings; use Time::HiRes ();
BEGIN { *CORE::GLOBAL::sleep = sub { Time::HiRes::sleep(0.004); $_[0] }; my $off = 0; *CORE::GLOBAL::time = sub () { $off++; CORE::time() + int($off / 3) }; }
1;
