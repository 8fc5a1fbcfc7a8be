# P34: Text::Expand::expandString against a reference expansion that scans by hand.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC;
BEGIN { require lib; lib->import("$ENV{MC_REPO}/src"); }
$MC::HANG = 20;
use Text::Expand 'expandString';
# the numbers one entry stands for, or undef if it is malformed
sub entry { my ($e) = @_; my $i = 0; my $n = length $e; my $num = sub { my $d = ''; while ($i < $n && index('0123456789', substr($e, $i, 1)) >= 0) { $d .= substr($e, $i++, 1); } return $d; };
    my $a = $num->(); return undef if $a eq ''; return [$a] if $i == $n; return undef if substr($e, $i++, 1) ne '-'; my $b = $num->(); return undef if $b eq ''; my $s = 1; if ($i < $n) { return undef if substr($e, $i++, 1) ne '%'; $s = $num->(); return undef if $s eq '' || $i < $n || $s == 0; }
    return undef if $a > $b; my @r; my $v = $a + 0; while ($v < $b) { push @r, $v; $v += $s; } return undef if $v != $b; push @r, $v; my $w = length $a; if ($w == length $b) { for (@r) { $_ = ('0' x ($w - length $_)) . $_ if length $_ < $w; } } return [@r]; }
# leftmost list: position of '[', of ']'; a list holds only digits , - %
sub findlist { my ($s) = @_; for my $i (0 .. length($s) - 1) { next unless substr($s, $i, 1) eq '['; my $j = $i + 1; $j++ while $j < length $s && index('0123456789,-%', substr($s, $j, 1)) >= 0; return ($i, $j) if $j < length $s && substr($s, $j, 1) eq ']'; } return; }
# all results in order, first list slowest; undef = an error, 'open' = left open by the property
sub reference { my ($s) = @_; my ($i, $j) = findlist($s); return [$s] unless defined $i; my $in = substr $s, $i + 1, $j - $i - 1; return 'open' if $in eq '' || $in =~ /,$/; my @vals; for my $e (split /,/, $in, -1) { my $v = entry($e); return undef unless $v; push @vals, @$v; }
    my @out; my $open = 0; for my $v (@vals) { my $r = reference(substr($s, 0, $i) . $v . substr($s, $j + 1)); return undef unless $r; if ($r eq 'open') { $open = 1; next; } push @out, @$r; } return 'open' if $open; return [@out]; }
sub run_ { my (@a) = @_; my @w; local $SIG{__WARN__} = sub { push @w, @_ }; my @r; my $ok = eval { @r = expandString(@a); 1 }; my $e = $@; MC::again($e) unless $ok; return ($ok ? [@r] : undef, "@w"); }
sub nested { my ($s) = @_; return $s =~ /\[[^\]]*\[/ || $s =~ /\][^\[]*\]/; }
sub check { my ($s) = @_; my $want = reference($s); return if defined $want && !ref $want; my ($got, $w) = run_($s); MC::state($s); if (!$want) { MC::req(!$got, "'$s' gives " . join(' ', @{ $got || [] }) . " instead of an error"); return; }
    MC::req($got, "'$s' is refused: $@"); my ($g, $x) = nested($s) ? (join(' ', sort @$got), join(' ', sort @$want)) : (join(' ', @$got), join(' ', @$want)); MC::eq_($g, $x, "from '$s'"); MC::eq_($w, '', "warnings from '$s'"); MC::outcome($x); }
sub texts { my ($len, $al) = @_; my $s = join '', map { MC::pick($al) } 1 .. $len; MC::note("'%s'", $s); check($s); }
sub inner { my ($len) = @_; my $s = join '', map { MC::pick(['0', '1', '2', ',', '-', '%']) } 1 .. $len; $s = MC::pick(['', 'a', '%d', '-'])  . "[$s]" . MC::pick(['', 'b%s', ']']); MC::note("'%s'", $s); check($s); }
my @PARTS = ('3', '07', '0-3', '00-02', '8-11', '08-11', '1-7%2', '05-15%5', '098-101', '2-2', '4-4%9', '10-8', '0-3%2', '1-5%0', '', '1-', '%2', 'x');
sub lists { my ($n, $parts, $lists) = @_; my $s = ''; for (1 .. $lists) { my $k = 1 + MC::choose($n); $s .= MC::pick(['a', '-', '']) . '[' . join(',', map { MC::pick($parts) } 1 .. $k) . ']'; } $s .= MC::pick(['', 'z']); MC::note("'%s'", $s); check($s); }
# several strings together give exactly the results of each
sub several { my ($n) = @_; my @al = ('p', 'p', 'a[0-2]', '[1,3]x[0,1]', '[10-12]', 'b[3-1]', 'q]', '', 'c[5]', '[[0,1]-2]'); my @a = map { MC::pick(\@al) } 1 .. MC::choose($n + 1); my @orig = @a; MC::note("%s", join(' ', map { "'$_'" } @a)); my @want; my $bad = 0; for (@a) { my $r = reference($_); if (!$r) { $bad = 1; } else { push @want, @$r; } } my ($got) = run_(@a); MC::eq_(join('|', @a), join('|', @orig), 'arguments changed'); MC::state(join ' ', @a); if ($bad) { MC::req(!$got, "no error from " . join(' ', @a)); return; } MC::req($got, "refused: " . join(' ', @a)); MC::eq_(join(' ', sort @$got), join(' ', sort @want), "from " . join(' ', @a)); }
# ranges of every pair of ends and every step
sub ranges { my ($max) = @_; my ($a, $b) = (MC::choose($max + 1), MC::choose($max + 1)); my $st = MC::choose(7); my ($wa, $wb) = (MC::choose(4), MC::choose(4)); my $s = 'n[' . sprintf("%0${wa}d-%0${wb}d", $a, $b) . ($st ? "%$st" : '') . ']'; $s .= ':[0,1]' if MC::choose(2); MC::note("'%s'", $s); check($s); }
# large numbers, wide ones, long ranges, long lists and long texts
sub large { my $k = 1 + MC::choose(15); my $base = 10 ** $k; $base = (2 ** 31, 2 ** 32, 2 ** 16, 2 ** 53 - 100)[MC::choose(4)] if $k == 15; my $lo = $base - 3 + MC::choose(6); my $n = MC::choose(4); my $st = MC::pick([1, 2, 7, 1000, 10 ** 6, 10 ** 9]); my $w = MC::pick([0, 0, 16, 20]); my $s = 'n[' . sprintf("%0${w}d-%0${w}d", $lo, $lo + $n * $st) . ($st > 1 || MC::choose(2) ? "%$st" : '') . (MC::choose(2) ? ",$base" : '') . ']'; MC::note("'%s'", $s); check($s); }
sub long { my ($max) = @_; my $n = MC::pick([99, 100, 101, 255, 256, 257, 999, 1000, 1001, 4096, 10000, $max]); my $kind = MC::choose(5); my $s = $kind == 0 ? "x[0-$n]" : $kind == 1 ? 'x[' . join(',', map { $_ * 3 } 1 .. $n) . ']y' : $kind == 2 ? ('p' x $n) . '[1-3]' . ('q' x $n) : $kind == 3 ? "[0-1]" . ('r[2]' x ($n < 257 ? $n : 256)) : sprintf('%0*d-%d', length $n, 0, $n) =~ s/(.*)/z[$1]/r; MC::note("kind %d, %d", $kind, $n); check($s); }
sub configs { my $x = MC::thorough(); my @al = ('a', '[', ']', '0', '2', ',', '-', '%');
    for my $l (0 .. ($x ? 8 : 6)) { MC::config("text_$l", sub { texts($l, \@al) }, "every text of $l characters over a letter, brackets, digits, comma, dash and percent"); }
    for my $l (1 .. ($x ? 8 : 6)) { MC::config("inner_$l", sub { inner($l) }, "every list body of $l characters, with twelve surroundings"); }
    MC::config("lists", sub { lists(2, \@PARTS, 1) }, "one list of up to two entries of every kind"); MC::config("two_lists", sub { lists(2, [@PARTS[0, 2, 3, 6, 9, 11, 14]], 2) }, "two lists of up to two entries"); MC::config("three_lists", sub { lists($x ? 2 : 1, [@PARTS[0, 2, 3, 6]], 3) }, "three lists");
    MC::config("ranges", sub { ranges($x ? 25 : 14) }, "every range with ends up to the maximum, zero to three digits wide, every step up to 6"); MC::config("large", \&large, "ranges near every power of ten to 10^14 and of two, wide ends, steps to 10^9"); MC::config("long", sub { long($x ? 300000 : 100000) }, "ranges, lists and texts with up to the given number of entries"); MC::config("several", sub { several($x ? 4 : 3) }, "every tuple of strings"); }
MC::run_main();
