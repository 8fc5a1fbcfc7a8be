# P30: Lintel::ProcessManager over a virtual kernel: where each child's exit lands between the parent's system calls,
# and when the exit signal is delivered, are choices; every placement is run.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC;
my (%K, %REAL); my $CLK; my $armed = 0; my (@kills, $pend, $inh, $sigs, $ticks);
sub k_reset { %K = (); $CLK = 1000; $armed = 1; @kills = (); $pend = 0; $inh = 0; $sigs = 0; $ticks = 0; }
sub k_signal { while ($pend && !$inh) { $pend = 0; my $h = $SIG{CHLD}; next unless defined $h && ref $h eq 'CODE'; $inh = 1; $sigs++; MC::note("  signal"); my $ok = eval { $h->('CHLD'); 1 }; my $e = $@; $inh = 0; die $e unless $ok; } }
sub k_tick { my ($n) = @_; $n = 1 unless defined $n; MC::step(); die "kernel: no progress\n" if ++$ticks > 3000;
    for my $p (sort { $a <=> $b } keys %K) { my $k = $K{$p}; next unless $k->{st} eq 'run'; if (defined $k->{file} && $k->{fdelay}-- <= 0) { open my $h, '>', $k->{file}; close $h; $k->{file} = undef; }
        if ($k->{delay} <= 0 && !defined $k->{file}) { $k->{st} = 'zombie'; $k->{died} = $CLK; $pend = 1 unless $k->{quiet}; MC::note("  exit $p"); } else { $k->{delay} -= $n; } } }
sub k_point { my ($what, $fn) = @_; if (!$armed) { return $fn->(); } k_tick(); my $late = 0; if ($pend && !$inh && k_watch()) { $late = MC::choose(2); } k_signal() unless $late; local $!; my @r = $fn->(); my ($e, $q) = ($! + 0, $?); k_signal() if $late; $! = $e; $? = $q; $MC::P30::errno = $e; return $r[0]; }
sub k_watch { return $main::WATCH; }
sub k_reap { my ($pid, $flags) = @_; my $any = 0;
    for my $p (sort { $a <=> $b } keys %K) { next unless $pid == -1 || $pid == $p; next if $K{$p}{st} eq 'gone'; $any = 1; if ($K{$p}{st} eq 'zombie') { $K{$p}{st} = 'gone'; $? = $K{$p}{status}; MC::note("  reap $p"); return $p; } }
    if (!$any) { $! = 10; $? = -1; return -1; } return 0 if $flags & 1; $CLK += 0.01; k_tick(); return k_reap($pid, $flags); }
my $BASE = 5_000_000; my $nextpid = $BASE; # no such process can exist, and only real children are ever signalled
 my @PLAN;
BEGIN {
    no warnings; require Time::HiRes;
    *CORE::GLOBAL::fork = sub () { if (!$armed) { my $p = CORE::fork(); $REAL{$p} = 1 if $p; return $p; } my $pl = shift @PLAN or die "kernel: unplanned fork\n"; my $p = $nextpid++; $K{$p} = { st => 'run', %$pl }; MC::note("  kernel fork $p delay $pl->{delay} status $pl->{status}"); k_point('fork', sub { 0 }); return $p; };
    *CORE::GLOBAL::waitpid = sub ($$) { my ($p, $f) = @_; return CORE::waitpid($p, $f) unless $armed; my $r = k_point('waitpid', sub { k_reap($p, $f) }); $! = $MC::P30::errno; return $r; };
    *CORE::GLOBAL::wait = sub () { return CORE::wait() unless $armed; my $r = k_point('wait', sub { k_reap(-1, 0) }); $! = $MC::P30::errno; return $r; };
    *CORE::GLOBAL::kill = sub { my ($s, @p) = @_; if (!$armed) { for (@p) { return 0 unless $REAL{$_}; } return CORE::kill($s, @p); } return k_point('kill', sub { my $n = 0; for my $p (@p) { my $q = abs $p; push @kills, [$s, $q] if $s; if ($K{$q} && $K{$q}{st} ne 'gone') { $n++; } else { $! = 3; } } return $n; }); };
    *CORE::GLOBAL::select = sub { if (!$armed) { return @_ > 1 ? CORE::select($_[0], $_[1], $_[2], $_[3]) : @_ ? CORE::select($_[0]) : CORE::select(); } return CORE::select(@_ ? $_[0] : ()) if @_ < 4; my $t = $_[3]; return k_point('select', sub { $CLK += $t; k_tick() for 2 .. ($t > 0.35 ? 5 : 1); 0 }); };
    my $sl = sub { my $t = shift; return k_point('sleep', sub { $CLK += $t; k_tick() for 2 .. ($t > 0.35 ? 5 : 1); $t }); };
    *CORE::GLOBAL::sleep = sub { return CORE::sleep($_[0]) unless $armed; $sl->($_[0]) };
    { my $o = \&Time::HiRes::sleep; *Time::HiRes::sleep = sub { $armed ? $sl->($_[0]) : $o->($_[0]) }; my $u = \&Time::HiRes::usleep; *Time::HiRes::usleep = sub { $armed ? $sl->($_[0] / 1e6) : $u->($_[0]) }; }
    *CORE::GLOBAL::time = sub () { $armed ? int($CLK) : CORE::time() };
    my $ot = \&Time::HiRes::time; *Time::HiRes::time = sub () { $armed ? $CLK : $ot->() };
    require lib; lib->import("$ENV{MC_REPO}/src");
}
use Lintel::ProcessManager;
our $WATCH = 0;
my $OWNER = $$; my $SCR = "/tmp/mcp30.$OWNER.x"; END { if (defined $OWNER && $OWNER == $$) { for my $d (glob("/tmp/mcp30.$OWNER.*")) { unlink glob("$d/*"); rmdir $d; } } }
my @STATUS = (0, 256, 15, 0x8b, 65280, 512);
# expected state, kept independently: every child the manager forked, whether it is still owed, how often it was reported
my (%M, %cb, %ret, $mgr, $nested, @foreign); our $depth = 0;
sub live { return grep { $M{$_}{owed} } sort { $a <=> $b } keys %M; }
sub check_children { my ($w) = @_; eq_(join(',', sort { $a <=> $b } $mgr->children()), join(',', live()), "children listed $w"); eq_($mgr->nChildren(), scalar(live()), "children counted $w"); }
sub on_exit_of { my ($slot, $kind) = @_; return sub { my ($pid, $status) = @_; note("   callback(%s, %s)", $pid, $status); req(@_ == 2, "callback given " . scalar(@_) . " arguments"); my ($want) = grep { $M{$_}{slot} == $slot } keys %M; eq_($pid, $want, "process id in callback"); eq_($status, $K{$pid}{status}, "status in callback of $pid"); req($K{$pid}{st} eq 'gone', "callback of $pid before it exited"); req(!$cb{$pid}++, "callback of $pid called twice"); req($M{$pid}{owed}, "callback of $pid though it was already reported"); $M{$pid}{owed} = 0; 
        $M{$_}{kind} eq 'none' && $K{$_}{st} eq 'gone' and $M{$_}{owed} = 0 for keys %M; check_children("inside the callback"); return if $depth > 2; local $depth = $depth + 1;
        if ($kind eq 'wait' && live()) { do_wait(undef); } elsif ($kind eq 'wait0' && live()) { do_wait(0); } elsif ($kind eq 'fork') { do_fork('record', choose(2), 1) if keys %M < 3; } elsif ($kind eq 'waitall') { do_waitall(); } elsif ($kind eq 'die') { die "callback failed\n"; } } }
sub do_fork { my ($kind, $delay, $stat, $out) = @_; my $slot = keys %M; push @PLAN, { delay => $delay, status => $STATUS[$stat], ($out ? (file => "$SCR/out$slot", fdelay => choose(2)) : ()) }; $nextpid = $BASE + keys %K; my $want = $nextpid; note("fork %s", $kind);
    # owed from the moment the operating system has it
    $M{$want} = { slot => $slot, owed => 1, kind => $kind }; my $pid = $mgr->fork(cmd => sub { }, ($kind ne 'none' ? (exitfn => on_exit_of($slot, $kind)) : ()), ($out ? (stdout => "$SCR/out$slot") : ())); eq_($pid, $want, "process id returned by fork"); return $pid; }
sub taken { my ($h, $what) = @_; for my $p (sort keys %$h) { req(exists $K{$p}, "$what reported process $p which never existed"); eq_($h->{$p}, $K{$p}{status}, "status of $p from $what"); req($K{$p}{st} eq 'gone', "$what reported $p before it exited"); req(!$ret{$p}++, "$what reported $p a second time"); if ($M{$p}) { if ($M{$p}{kind} eq 'none') { $M{$p}{owed} = 0; } else { req($cb{$p}, "$what reported $p without calling its callback"); } } } }
sub settle { for my $p (keys %M) { $M{$p}{owed} = 0 if $K{$p}{st} eq 'gone' && $M{$p}{kind} eq 'none'; req($cb{$p} || $K{$p}{st} ne 'gone', "process $p was reaped but its callback was not called") if $M{$p}{kind} ne 'none'; } }
sub first_exit { my @d = sort { $a <=> $b } map { $K{$_}{died} } grep { defined $K{$_}{died} && !$ret{$_} && !$cb{$_} && !($K{$_}{discarded}) } keys %K; return $d[0]; }
sub mark_discarded { my %keep = map { $_ => 1 } @_; for (keys %K) { $K{$_}{discarded} = 1 if $K{$_}{st} eq 'gone' && !$ret{$_} && !$keep{$_}; } }
sub do_wait { my ($t) = @_; my @l = live(); note("wait(%s) with %d", defined $t ? $t : '', scalar @l); my $c0 = $CLK; my %r; my $ok = eval { %r = defined $t ? $mgr->wait($t) : $mgr->wait(); 1 }; my $e = $@; again($e);
    if (!@l) { req(!$ok, "wait without children returned"); return; } if (!$ok) { if ($e =~ /callback failed/) { settle(); die $e; } fail_('wait failed', "wait failed: $e"); }
    note("  -> %s", join(',', map { "$_=$r{$_}" } sort keys %r)); my $el = $CLK - $c0; my $fd = first_exit(); settle() if !$depth; taken(\%r, 'wait');
    req($el <= $t + 1, "wait($t) took $el seconds") if defined $t && !$depth && !$nested;
    if (!%r) { req(defined $t, "wait returned nothing"); req($el >= $t - 1e-9, "wait($t) gave up after only $el seconds"); req($el <= $t + 1, "wait($t) took $el seconds"); for (@l) { req(!defined $K{$_}{died} || $K{$_}{died} > $CLK - 1 || $K{$_}{st} eq 'gone', "wait($t) ended with $_ long exited"); } }
    else { my ($d) = sort { $a <=> $b } map { $K{$_}{died} } keys %r; my $from = $d > $c0 ? $d : $c0; req($depth || $nested || $CLK - $from <= 1, "wait returned " . ($CLK - $from) . " seconds after the exit"); } }
sub do_waitpid { my ($pid) = @_; my $owned = $M{$pid} && $M{$pid}{owed}; note("waitPid(%s)", $pid); my $c0 = $CLK; my $s; my $ok = eval { $s = $mgr->waitPid($pid); 1 }; my $e = $@; again($e); fail_('waitPid failed', "waitPid($pid) failed: $e") unless $ok; note("  -> %s", defined $s ? $s : 'undef');
    if (!$owned) { req(!defined $s, "waitPid of a process which is not a child gave $s"); return; } settle(); req(defined $s, "waitPid($pid) gave no status"); eq_($s, $K{$pid}{status}, "status from waitPid"); req($K{$pid}{st} eq 'gone' && !$M{$pid}{owed}, "waitPid($pid) returned before the process was reaped"); my $from = $K{$pid}{died} > $c0 ? $K{$pid}{died} : $c0; req($nested || $CLK - $from <= 1, "waitPid returned " . ($CLK - $from) . " seconds after the exit"); mark_discarded(); }
sub do_waitall { my @l = live(); note("waitAll with %d", scalar @l); my %r; my $ok = eval { %r = $mgr->waitAll(); 1 }; my $e = $@; again($e); fail_('waitAll failed', "waitAll failed: $e") unless $ok; settle(); taken(\%r, 'waitAll'); eq_(scalar(live()), 0, "children left after waitAll"); if (!$nested && !$depth) { for (@l) { req(exists $r{$_}, "waitAll did not report $_"); } } }
sub do_foreign { note("foreign fork"); push @PLAN, { delay => choose(2), status => 768, quiet => 0 }; $nextpid = $BASE + keys %K; my $p = eval 'fork()'; }
sub fresh { my (%o) = @_; $armed = 0; if ($mgr) { local $SIG{__WARN__} = sub { }; $mgr->{children} = {}; } undef $mgr; $SCR = "/tmp/mcp30.$OWNER.$$"; if (-d $SCR) { unlink glob("$SCR/*") if $o{files}; } elsif ($o{files}) { mkdir $SCR; } k_reset(); %M = %cb = %ret = (); @foreign = (); @PLAN = (); $nested = 0; $depth = 0; $WATCH = 0; $nextpid = $BASE; $mgr = new Lintel::ProcessManager(exists $o{auto} ? (auto_kill_on_destroy => $o{auto}) : ()); }
sub finish { do_waitall() if live(); check_children("at the end"); for my $p (keys %M) { eq_($cb{$p} || 0, $M{$p}{kind} eq 'none' ? 0 : 1, "callbacks of $p"); eq_($K{$p}{st}, 'gone', "state of $p at the end"); } outcome(join ',', map { "$_:" . ($ret{$_} || 0) . ($cb{$_} || 0) } sort keys %K); undef $mgr; $armed = 0; }
sub snap { state(join ';', map { my $k = $K{$_}; "$_ $k->{st} $k->{delay} $k->{status} " . ($M{$_} ? "$M{$_}{owed}$M{$_}{kind}" : 'f') } sort keys %K); }
sub script { my ($len, $maxk, $kinds, $delays, $o) = @_; local $SIG{__WARN__} = sub { note("  warning: %s", $_[0]) if 0; }; fresh(); $nested = grep { /^wait/ } @$kinds; my $f = 0; local $WATCH = $o->{signals};
    if ($o->{signals}) { my $n = 0; $mgr->enableSignals(sub { note("   handler"); req(@_ == 1 && ref $_[0] && $_[0] == $mgr, "the signal function was not given the manager"); my @l = live(); my $c = $mgr->nChildren(); my $ok = eval { $mgr->wait(0); 1 }; again($@); fail_('wait in handler', "wait was allowed inside the signal function") if $ok; }); }
    for my $i (1 .. $len) { snap(); my @ops = ('wait', 'wait0', 'waitt', 'waitall'); push @ops, 'fork' if keys %K < $maxk; push @ops, 'foreign' if $o->{foreign} && keys %K < $maxk && !grep { !$M{$_} } keys %K; push @ops, 'waitpid' if %M; unshift @ops, pop @ops if keys %K == 0; my $op = pick(\@ops); prune() if $op eq 'waitall' && $i == $len;
        # a script that only waits is covered by the short ones
        if ($op eq 'fork') { do_fork(pick($kinds), pick($delays), scalar(keys %M)); } elsif ($op eq 'foreign') { do_foreign(); } elsif ($op eq 'wait') { do_wait(undef); } elsif ($op eq 'wait0') { do_wait(0); } elsif ($op eq 'waitt') { do_wait(0.25); } elsif ($op eq 'waitall') { do_waitall(); } elsif ($op eq 'waitpid') { do_waitpid(pick([(sort { $a <=> $b } keys %K), $BASE + 4242])); }
        check_children("after $op"); }
    finish(); }
# real children: what the child itself runs and how its outcome comes back
sub real { $armed = 0; undef $mgr; $SCR = "/tmp/mcp30.$OWNER.$$"; mkdir $SCR; unlink glob("$SCR/*"); $mgr = new Lintel::ProcessManager(); my @want; my $n = 1 + choose(2);
    for my $i (1 .. $n) { my $k = $i == 1 ? choose(3) : 1; my @st = (0, 1, 3, 127, 255, 'TERM', 'KILL'); my $s = $i == 1 ? pick(\@st) : 5; my $so = $i == 1 ? choose(2) : 1; my $se = $i == 1 ? choose(3) : 2; my $out = "$SCR/o$i"; my $err = $se == 2 ? 'STDOUT' : "$SCR/e$i"; my $end = $s =~ /\d/ ? "exit $s" : "kill -$s \$\$"; my $sh = "echo 'a b' \$0; echo oops 1>&2; $end"; my $pg = $i == 1 && $k == 1 ? choose(2) : 0; if ($so && choose(2) && $i == 1) { open my $h, '>', $out; print $h "old contents\nmore\n"; close $h; }
        my $cmd = $k == 0 ? $sh : $k == 1 ? ['/bin/sh', '-c', $sh, "it's \$x"] : sub { print "a b fn\n"; STDOUT->flush(); print STDERR "oops\n"; if ($s =~ /\d/) { if ($s == 0) { return 5; } POSIX::_exit($s); } CORE::kill($s, $$); CORE::sleep(5); }; local $SIG{__WARN__} = sub { }; my $got;
        my $pid = $mgr->fork(cmd => $cmd, ($so ? (stdout => $out) : ()), ($se ? (stderr => $err) : ()), ($pg ? (setpgid => 1) : ()), exitfn => sub { $got = [@_]; }); push @want, { pid => $pid, st => ($s =~ /\d/ ? $s << 8 : $s eq 'TERM' ? 15 : 9), out => $so ? $out : undef, err => $se ? $err : undef, got => \$got, k => $k, i => $i }; $want[-1]{got} = sub { $got }; }
    my %r = choose(2) ? $mgr->waitAll() : map { my $p = $_->{pid}; my $s = $mgr->waitPid($p); ($p => $s) } reverse @want; my $seen = '';
    for my $w (@want) { my $g = $w->{got}->(); req(defined $g, "callback of a real child was not called"); eq_("@$g", "$w->{pid} $w->{st}", "callback of a real child"); eq_($r{$w->{pid}}, $w->{st}, "status of a real child") if defined $r{$w->{pid}} || @want == 1; my $so = slurp($w->{out}); my $want = $w->{k} == 2 ? "a b fn\n" : $w->{k} == 1 ? "a b it's \$x\n" : "a b sh\n"; if (defined $w->{out}) { my $full = $want . (defined $w->{err} && $w->{err} eq 'STDOUT' ? "oops\n" : ''); eq_($so, $full, "standard output of a real child"); } eq_(slurp($w->{err}), "oops\n", "error output of a real child") if defined $w->{err} && $w->{err} ne 'STDOUT'; $seen .= "$w->{st},"; }
    eq_($mgr->nChildren(), 0, "real children left"); state($seen); outcome($seen); undef $mgr; note("statuses %s", $seen); unlink glob("$SCR/*"); rmdir $SCR; }
# a child running a function ends in each way while a sibling is still at work: it has no children of its own and harms no sibling
sub siblings { $armed = 0; undef $mgr; $SCR = "/tmp/mcp30.$OWNER.$$"; mkdir $SCR; unlink glob("$SCR/*"); my $opt = choose(3); $mgr = new Lintel::ProcessManager($opt == 0 ? () : (auto_kill_on_destroy => $opt - 1)); my $n = 1 + choose(2); my $end = (0, 1, 3)[choose(3)]; my $pg = choose(2); my (@kid, @w); local $SIG{__WARN__} = sub { };
    for my $i (1 .. $n) { pipe(my $r, my $wr) or die "pipe"; push @w, $wr; push @kid, $mgr->fork(cmd => sub { close $_ for @w; my $x = <$r>; POSIX::_exit(6 + $i); }); close $r; }
    my $fpid = $mgr->fork(cmd => sub { close $_ for @w; open my $h, '>', "$SCR/c"; print $h $mgr->nChildren() . ' ' . join(',', $mgr->children()); close $h; if ($end == 0) { return 3; } if ($end == 1) { exit(4); } undef $mgr; POSIX::_exit(5); }, ($pg ? (setpgid => 1) : ()));
    my $st = $mgr->waitPid($fpid); eq_(slurp("$SCR/c"), '0 ', "children the function's process believes it has"); eq_($st, $end == 0 ? 0 : $end == 1 ? 4 << 8 : 5 << 8, "status of the function's process"); eq_(join(',', sort { $a <=> $b } $mgr->children()), join(',', sort { $a <=> $b } @kid), "children left"); close $_ for @w; my %r = $mgr->waitAll(); eq_($r{$kid[$_]}, (7 + $_) << 8, "status of a child whose sibling ended first") for 0 .. $#kid; state("$opt $n $end $pg"); outcome("$end $n"); undef $mgr; unlink glob("$SCR/*"); rmdir $SCR; }
sub slurp { my ($f) = @_; return '' unless defined $f && open my $h, '<', $f; local $/; my $x = <$h>; return defined $x ? $x : ''; }
sub destroy { my $w = ''; local $SIG{__WARN__} = sub { $w .= $_[0]; }; my $au = choose(3); fresh($au == 0 ? () : (auto => $au - 1)); my $n = choose(4); do_fork('none', choose(3), $_) for 1 .. $n; do_wait(0) if live() && choose(2); do_foreign() if choose(2); @kills = (); my @l = live(); snap(); undef $mgr; my %k; for (@kills) { $k{$_->[1]}++ if $_->[0] eq 'TERM' || $_->[0] eq '15'; req($_->[0] eq 'TERM' || $_->[0] eq '15', "signal $_->[0] sent"); } my $want = $au == 1 ? '' : join(',', @l); eq_(join(',', sort { $a <=> $b } keys %k), $want, "children told to end when the manager goes away"); req($_ == 1, "a child was signalled twice") for values %k; eq_($w ne '' ? 1 : 0, $au == 0 && @l ? 1 : 0, "warning when the manager goes away"); outcome("$au $want"); note("option %d killed %s", $au, $want); $armed = 0; }
sub outputs { local $SIG{__WARN__} = sub { }; fresh(files => 1); my $n = 1 + choose(2); for (1 .. $n) { do_fork(pick(['none', 'record']), choose(4), $_, 1); check_children("after fork"); do_wait(0) if live() && choose(2); } finish(); }
sub dying_handler { local $SIG{__WARN__} = sub { }; fresh(); my $boom = 0; my $calls = 0; $mgr->enableSignals(sub { $calls++; die "handler failed\n" if $boom; }); do_fork('record', choose(2), 1); $boom = 1; my $how = choose(2); my $ok = eval { $pend = 1; k_signal(); 1 }; again($@) if $@ ne "handler failed\n"; req(!$ok && $@ eq "handler failed\n", "the signal function's failure was lost"); $boom = 0; my $before = $calls; eval { $pend = 1; k_signal(); 1 } or again($@), fail_('second signal', "after a failed signal function the next signal failed: $@"); req($calls == $before + 1, "signal function called " . ($calls - $before) . " times"); do_wait(undef) if $how; finish(); }
sub dying_callback { local $SIG{__WARN__} = sub { }; fresh(); my @k = map { pick(['die', 'record', 'none']) } 1 .. 3; my $i = 0; do_fork($_, choose(2), $i++) for @k; my $n = 0; while (live() && $n++ < 8) { eval { do_wait(undef); 1 } or do { again($@); req($@ eq "callback failed\n", "unexpected failure $@"); }; settle(); check_children("after a callback failed"); } eq_(scalar(live()), 0, "children never reported"); for my $p (keys %M) { eq_($cb{$p} || 0, $M{$p}{kind} eq 'none' ? 0 : 1, "callbacks of $p"); } outcome("@k"); undef $mgr; $armed = 0; }
sub mask { my $s = choose(65536); my $m = Lintel::ProcessManager::maskCoredump($s); eq_($m, $s & ~0x80, "status $s without the core flag"); state($s); outcome($m); }
sub configs { my $x = thorough();
    config("scripts", sub { script($x ? 6 : 5, 3, ['none', 'record'], $x ? [0 .. 3] : [0, 1, 3], {}) }, "every script of up to " . ($x ? 6 : 5) . " fork/wait/wait(0)/wait(t)/waitPid/waitAll calls with up to 3 children, each exiting at every point between the parent's system calls");
    config("scripts_foreign", sub { script($x ? 5 : 4, 3, ['none', 'record'], $x ? [0 .. 3] : [0, 2], { foreign => 1 }) }, "the same with a child of other code in the process");
    config("scripts_slow", sub { script($x ? 5 : 4, 2, ['none', 'record'], [1, 80], {}) }, "children that live long past every time limit");
    config("scripts_callbacks", sub { script($x ? 5 : 4, 3, ['record', 'wait', 'wait0', 'fork', 'waitall'], $x ? [0, 1, 2, 4] : [0, 2], {}) }, "callbacks which themselves wait, wait for all, or fork");
    config("scripts_signals", sub { script($x ? 5 : 4, 3, ['none', 'record'], $x ? [0 .. 2] : [0, 2], { signals => 1 }) }, "with the exit signal enabled, delivered before or after each system call");
    config("outputs", \&outputs, "children whose output file appears late, exiting at every point of the wait for it");
    config("destroy", \&destroy, "the manager destroyed with every number of live, exited and foreign children, with each kill option");
    config("dying_handler", \&dying_handler, "a signal function that dies"); config("dying_callback", \&dying_callback, "callbacks that die, every order of exits");
    config("mask", \&mask, "the core flag masked out of every 16-bit status");
    config("siblings", \&siblings, "real function children ending in three ways next to working siblings"); config("real", \&real, "real children: string, array and function commands, every redirection and exit status or signal"); }
run_main();
