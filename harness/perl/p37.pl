# P37: Plot::Mercury::Tics: every mark of a time axis stands at the local date or time its label gives.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC; use POSIX ();
BEGIN { require lib; lib->import("$ENV{MC_REPO}/src"); }
$MC::HANG = 10;
use Plot::Mercury::Tics;
# zones by rule, so that no zone file is needed: whole and part hours, both hemispheres, change at midnight, change by half an hour
my @ZONES = ('UTC0', 'PST8PDT,M3.2.0,M11.1.0', 'IST-5:30', 'CST5CDT,M3.2.0/0,M11.1.0/1', 'AEST-10AEDT,M10.1.0,M4.1.0/3', 'NPT-5:45', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01', 'CET-1CEST,M3.5.0,M10.5.0/3');
my %CHANGE = ('LHST-10:30LHDT-11,M10.1.0,M4.1.0' => 1); # clock changes that are not an hour
sub off { my ($t) = @_; my @l = localtime($t); return timegm_(@l) - $t; }
sub days { my ($y, $m, $d) = @_; my $a = POSIX::floor((14 - $m) / 12); my $yy = $y + 4800 - $a; my $mm = $m + 12 * $a - 3; return $d + int((153 * $mm + 2) / 5) + 365 * $yy + int($yy / 4) - int($yy / 100) + int($yy / 400) - 32045 - 2440588; }
sub timegm_ { my @l = @_; return days($l[5] + 1900, $l[4] + 1, $l[3]) * 86400 + $l[2] * 3600 + $l[1] * 60 + $l[0]; }
my ($DAY, $HOUR) = (86400, 3600);
# span in seconds -> step in seconds, 'week' or 'month'
sub stepOf { my ($n) = @_; return 30 if $n <= 300; return 60 if $n <= 600; my $h = $n / 3600; for ([1, 180], [3, 600], [6, 1800], [12, 3600], [24, 7200], [48, 14400], [72, 21600], [96, 28800], [144, 43200]) { return $_->[1] if $h <= $_->[0]; } return 86400 if $h < 288; return $n / 86400 <= 84 ? 'week' : 'month'; }
sub check { my ($zone, $s, $e, $rel) = @_; $ENV{TZ} = $zone; POSIX::tzset(); my $lab = "$zone from $s to $e" . ($rel ? ' relative' : ''); MC::note('%s', $lab); MC::step(); MC::state($lab); my $n = $e - $s; my $step = stepOf($n);
    my @w; my ($x, $printed); { local $SIG{__WARN__} = sub { push @w, @_ }; my $out = ''; open my $cap, '>', \$out or die; my $old = select $cap; my $ok = eval { $x = Plot::Mercury::Tics::plottics($s, $e, $rel); 1 }; my $err = $@; select $old; MC::again($err) unless $ok; $printed = $out; MC::req($ok, "marks for $lab: $err"); }
    MC::eq_($printed, '', "printed for $lab"); MC::eq_("@w", '', "warnings for $lab"); MC::req(!!($x =~ /^set xtics \((.*)\)$/), "marks for $lab are '$x'"); my ($in) = $x =~ /^set xtics \((.*)\)$/; my (@T, @L); while ($in ne '') { my ($l, $p) = $in =~ /^(?:, )?"([^"]*)" (-?[\d.]+(?:e[-+]?\d+)?)/; MC::req(defined $p, "marks for $lab: '$x'"); $in =~ s/^(?:, )?"[^"]*" [^,]*//; my $t = $rel ? $s + 3600 * $p : $p; my $r = POSIX::floor($t + 0.5); push @T, abs($t - $r) < 1e-3 ? $r : $t; push @L, $l; }
    MC::outcome("$step " . scalar @T); MC::req(@T <= 20 + 1, scalar(@T) . " marks for $lab");
    my $big = $step eq 'week' || $step eq 'month' || $step >= $DAY; my $slack = $big ? $HOUR : 0;
    for my $i (0 .. $#T) { my $t = $T[$i]; my $m = "mark $i at $t labelled '$L[$i]' for $lab"; MC::req($i == 0 || $t > $T[$i - 1], "$m is not after the one before") ; MC::req($t >= $s - $slack && ($t < $e + $slack || ($step eq 'month' && $t <= $e)), "$m lies outside the span");
        my @l = localtime($t); my $date = sprintf('%04d-%02d-%02d', $l[5] + 1900, $l[4] + 1, $l[3]); my $end = $step eq 'month' && $i == $#T;
        if ($L[$i] =~ /^\d+-\d\d-\d\d$/) { MC::eq_($L[$i], $date, "date of $m"); if (!$end) { if ($step eq 'week' || $step eq 'month') { MC::req($l[2] == 0 || same_day_start($t), "$m does not stand at the start of that day"); } else { MC::req($l[2] == 0 && $l[1] == 0 && $l[0] == 0, "$m does not stand at midnight"); } } }
        else { my ($h, $mi, $se) = $L[$i] =~ /^(\d+):(\d+)(?::(\d+))?$/; MC::req(defined $mi, "label of $m"); $se ||= 0; MC::eq_(sprintf('%d:%d:%d', $h, $mi, $se), sprintf('%d:%d:%d', $l[2], $l[1], $l[0]), "time of day of $m"); MC::req($h + $mi + $se > 0, "$m stands at midnight without a date"); MC::req(!!($step ne "week" && $step ne "month" && ($step < $DAY || $CHANGE{$zone} || $zone =~ m{/0})), "$m is not a date"); } }
    if ($step eq 'week') { MC::req(@T > 0, "no mark for $lab"); MC::req($T[0] - $s <= 50 * $HOUR, "first mark for $lab comes late"); MC::req($e - $T[-1] <= 7 * $DAY + 2 * $HOUR, "last mark for $lab comes early"); for my $i (1 .. $#T) { MC::eq_(dayno($T[$i]) - dayno($T[$i - 1]), 7, "days between marks for $lab"); } }
    elsif ($step eq 'month') { MC::eq_($T[-1], POSIX::floor($e + 0.5), "last mark for $lab") if $e == int $e; for my $i (1 .. $#T - 1) { my @a = localtime($T[$i]); my @b = localtime($T[$i - 1]); MC::eq_($a[3], $b[3], "day of the month of mark $i for $lab"); my $g = $T[$i] - $T[$i - 1]; MC::req($g > $n / 11 - 2 && $g <= $n / 11 + 62 * $DAY + 2 * $HOUR, "gap of $g seconds before mark $i for $lab"); } if (@T > 1) { MC::req($T[0] - $s <= 50 * $HOUR, "first mark for $lab comes late"); } MC::req($T[-1] - (@T > 1 ? $T[-2] : $s) <= 2 * ($n / 11 + 62 * $DAY) + 4 * $HOUR, "gap before the end for $lab"); MC::req(@T >= 2, "too few marks for $lab"); }
    else { my $sl = $step == $DAY ? 2 * $HOUR : 0; if ($n <= $step && !@T) { return; } MC::req(@T > 0, "no mark for $lab"); MC::req($T[0] - $s < $step + $sl, "first mark for $lab comes late"); MC::req($e - $T[-1] <= $step + $sl, "last mark for $lab comes early");
        my $steady = off($T[0]) == off($T[0] - 73 * $HOUR) && off($T[0] - 24 * $HOUR) == off($T[0]) && off($T[0] - 48 * $HOUR) == off($T[0]); if ($steady && $step < $DAY) { MC::eq_(($T[0] + off($T[0])) % $step, 0, "distance of the first mark for $lab from a step of $step since midnight"); }
        for my $i (1 .. $#T) { my $g = $T[$i] - $T[$i - 1]; if ($step < $DAY) { MC::eq_($g, $step, "distance of mark $i from the one before for $lab"); } elsif (!$CHANGE{$zone}) { MC::req($g >= 22 * $HOUR && $g <= 26 * $HOUR, "distance of mark $i from the one before for $lab is $g"); MC::eq_(dayno($T[$i] + 2 * $HOUR) - dayno($T[$i - 1] + 2 * $HOUR), 1, "days between marks for $lab"); } } } }
sub dayno { my @l = localtime($_[0]); return days($l[5] + 1900, $l[4] + 1, $l[3]); }
sub same_day_start { my ($t) = @_; return dayno($t - $HOUR) != dayno($t); }
# instants to start near: the epoch, clock changes, leap day, year and month ends
my @BASES = (6 * 86400, 1173607200, 1194166800, 1206838800, 1204156800, 1199059200, 1170201600);
my @LIMITS = (300, 600, 3600, 3 * 3600, 6 * 3600, 12 * 3600, 24 * 3600, 48 * 3600, 72 * 3600, 96 * 3600, 144 * 3600, 288 * 3600, 84 * 86400);
my @LENS = (0, 1, 29, 30, 31, (map { ($_ - 1, $_, $_ + 1) } @LIMITS), 200, 450, 2000, 7200, 5 * 3600, 10 * 3600, 20 * 3600, 100 * 86400, 200 * 86400, 366 * 86400, 1000 * 86400, 4000 * 86400);
sub grid { my ($bases, $n, $unit, $lens) = @_; my $z = MC::pick(\@ZONES); my $b = MC::pick($bases); my $s = $b + (MC::choose($n) - int($n / 2)) * $unit; $s = 0 if $s < 0; check($z, $s, $s + MC::pick($lens), MC::choose(2)); }
sub configs { my $x = MC::thorough();
    MC::config('lengths', sub { grid(\@BASES, $x ? 25 : 9, 2213, \@LENS) }, 'nine zones, starts around clock changes and calendar ends, every length limit and both neighbours');
    MC::config('hours', sub { grid([1173607200, 1194166800, 1206838800], $x ? 240 : 96, 3600, [3600 * 5, 86400, 5 * 86400, 11 * 86400, ($x ? (30 * 86400, 300 * 86400) : ())]) }, 'every hour of the days around clock changes');
    MC::config('minutes', sub { grid([1173607200, 1194166800, 86400 * 300], $x ? 2000 : 180, $x ? 30 : 60, [299, 599, 3599, 3 * 3600]) }, 'every minute of the hours around clock changes');
    MC::config('months', sub { grid([1170201600, 1204156800], $x ? 400 : 70, 86400, [85 * 86400, 150 * 86400, 365 * 86400, 3000 * 86400]) }, 'every day from month ends, spans of months and years');
    MC::config('fractions', sub { my $z = MC::pick(\@ZONES); my $s = MC::pick(\@BASES) + MC::pick([0.5, 0.25, 59.75, -0.5]); check($z, $s, $s + MC::pick(\@LENS) + MC::pick([0, 0.5]), MC::choose(2)); }, 'starts and ends between seconds'); }
MC::run_main();
