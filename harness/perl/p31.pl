# P31: Lintel::File::Lock and lintel-flock. Real processes and real locks on scratch files; a controller decides which
# process makes its next system call, when sleeps end, and when a process is killed; every such schedule is run.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC; use Fcntl qw(:flock :DEFAULT); use Errno; use IO::Handle; use Socket;
my ($link, $clk, $inject); our $gated = 0;
sub up { my ($m) = @_; syswrite $link, "$m\n"; } sub down { my $l = ''; while ($l !~ /\n\z/) { my $n = sysread $link, $l, 4096, length $l; exit 0 unless $n; } chomp $l; my ($cmd, $t, @x) = split / /, $l; $clk = $t; return ($cmd, @x); }
BEGIN {
    *CORE::GLOBAL::flock = sub (*$) { my ($h, $op) = @_; if (!ref $h && ref \$h ne 'GLOB') { no strict 'refs'; $h = \*{ "main::$h" }; } return CORE::flock($h, $op) unless $gated;
        my $w = ($op & LOCK_UN) ? 'U' : ($op & LOCK_NB) ? 'F' : 'W'; up($w); while (1) { my ($c, $err) = down(); if ($err) { $! = $err; return 0; } my $r = CORE::flock($h, $op | LOCK_NB); if (!$r && $!{EWOULDBLOCK} && !($op & LOCK_NB)) { up('B'); next; } my $e = $! + 0; up($r ? 'L' : 'X'); down(); $! = $e; return $r; } };
    my $sl = sub { my $t = shift; up("S $t"); down(); $t };
    *CORE::GLOBAL::sleep = sub { return CORE::sleep($_[0]) unless $gated; $sl->($_[0]) };
    *CORE::GLOBAL::select = sub { return @_ > 1 ? CORE::select($_[0], $_[1], $_[2], $_[3]) : @_ ? CORE::select($_[0]) : CORE::select() if @_ < 4 || !$gated; $sl->($_[3]); 0 };
    *CORE::GLOBAL::time = sub () { $gated ? int($clk) : CORE::time() };
    no warnings; require Time::HiRes; my $ot = \&Time::HiRes::time; *Time::HiRes::time = sub () { $gated ? $clk : $ot->() }; my $os = \&Time::HiRes::sleep; *Time::HiRes::sleep = sub { $gated ? $sl->($_[0]) : $os->(@_) };
    require lib; lib->import("$ENV{MC_REPO}/src");
}
use Lintel::File::Lock;
my $OWNER = $$; my $BASE = "/tmp/mcp31.$OWNER"; my $DIR; my @W;
END { if (!$ENV{MC_KEEP} && defined $OWNER && $$ == $OWNER) { for my $d (glob("$BASE.*")) { unlink glob("$d/*"); rmdir $d; } } }
sub dir { $DIR = "$BASE.$$"; mkdir $DIR unless -d $DIR; return $DIR; }
# one worker: performs the operations it is told, with every system call of the locking code gated
sub worker { my %h; $gated = 1; $SIG{PIPE} = 'DEFAULT'; STDERR->autoflush(1); up('N ready');
    while (1) { my ($c, @a) = down(); my $r;
        if ($c eq 'lock') { my ($f, $w, $how) = @a; $w = undef if $w eq '-'; my $fh = eval { $how == 0 ? (defined $w ? Lintel::File::Lock::getLock($f, $w) : Lintel::File::Lock::getLock($f)) : Lintel::File::Lock::getLockEx($f, (defined $w ? (waittime => $w) : ())) }; if ($@) { $r = 'die'; } elsif (defined $fh) { push @{ $h{$f} }, $fh; $r = 'ok'; } else { $r = 'undef'; } }
        elsif ($c eq 'unlock') { my ($f) = @a; pop @{ $h{$f} }; $r = 'ok'; }
        elsif ($c eq 'reset') { %h = (); $r = 'ready'; }
        elsif ($c eq 'exit') { exit 0; }
        up("N $r"); } }
sub spawn { my ($i) = @_; socketpair(my $a, my $b, AF_UNIX, SOCK_STREAM, PF_UNSPEC) or die "MC: socketpair $!"; my $pid = CORE::fork(); die "MC: fork $!" unless defined $pid; if (!$pid) { close $a; for (@W) { close $_->{s} if $_ && $_->{s}; } $link = $b; $link->autoflush(1); eval { worker(); }; POSIX::_exit(1); } close $b; $W[$i] = { pid => $pid, s => $a, owner => $$ }; hear($i); }
sub hear { my ($i) = @_; my $w = $W[$i]; my $l = ''; while ($l !~ /\n\z/) { my $n = sysread $w->{s}, $l, 4096, length $l; if (!$n) { $w->{dead} = 1; $w->{at} = 'dead'; return; } } chomp $l; $w->{at} = substr $l, 0, 1; $w->{arg} = substr $l, 2 if length $l > 2; }
sub order { my ($i, $m) = @_; syswrite $W[$i]{s}, "$m\n"; hear($i); }
sub bury { my ($i, $sig) = @_; my $w = $W[$i]; CORE::kill($sig, $w->{pid}) if $sig; close $w->{s}; CORE::waitpid($w->{pid}, 0); $w->{dead} = 1; $w->{at} = 'dead'; }
sub free { my ($f) = @_; open my $h, '<', $f or return 1; return CORE::flock($h, LOCK_EX | LOCK_NB) ? 1 : 0; }
my %SEEN; sub sched { my ($n, $len, $waits, $o) = @_; my $d = dir(); my @files = map { "$d/f$_" } 1 .. ($o->{files} || 1); my $now = 1000.25;
    for my $i (0 .. $n - 1) { my $w = $W[$i]; if ($w && $w->{owner} == $$ && !$w->{dead} && $w->{at} eq 'N') { order($i, "reset $now"); } else { bury($i, 'KILL') if $w && $w->{owner} == $$ && !$w->{dead}; spawn($i); } }
    for (@files) { open my $h, '>', $_; print $h 'contents'; close $h; } unlink $files[0] if $o->{missing};
    my (@hist, @left, @has, @in, @since, @wait, @last, @log); my $kills = $o->{kills} || 0; my $faults = $o->{faults} || 0; $left[$_] = $len, $has[$_] = {}, $in[$_] = undef for 0 .. $n - 1; my $steps = 0; my $cur = -1; my $pre = defined $o->{pre} ? $o->{pre} : 99;
    while (1) { die "MC: livelock\n" if ++$steps > 400; MC::step();
        # what the file itself says must agree with who was told they hold it
        for my $f (@files) { my @hold = grep { $has[$_]{$f} } 0 .. $n - 1; req(@hold <= 1, "processes @hold hold the lock at once"); if (@hold) { req(!free($f), "process $hold[0] was given the lock but it is free"); } elsif (!grep { $in[$_] && $in[$_] eq $f } 0 .. $n - 1) { req(free($f), "nobody holds the lock and it is not free"); } }
        # everything the rest of an execution depends on, including all a process has seen in its current call
        my $key = join(';', $kills, $faults, map { my $i = $_; my $w = $W[$i]; join('/', $w->{at}, $w->{arg} || '', $w->{hurt} || 0, defined $w->{wake} ? $w->{wake} - $now : '', join(',', sort grep { $has[$i]{$_} } keys %{ $has[$i] }), $left[$i], $in[$i] || '', defined $wait[$i] ? $wait[$i] : '', defined $since[$i] ? $now - $since[$i] : '', defined $last[$i] ? $now - $last[$i] : '', $hist[$i] || '') } 0 .. $n - 1); state($key); if (past_prefix()) { prune() if $SEEN{$key}++; }
        my @en = grep { my $w = $W[$_]; !$w->{dead} && ($w->{at} eq 'N' ? $left[$_] : $w->{at} eq 'B' ? free($in[$_]) : 1) } 0 .. $n - 1; 
        if (!@en) { for (0 .. $n - 1) { if (!$W[$_]{dead} && $W[$_]{at} eq 'B') { my $f = $in[$_]; req((grep { $has[$_]{$f} } 0 .. $n - 1) ? 1 : 0, "process $_ waits for a lock nobody holds"); } } last; }
        my @act = map { ['run', $_] } sort { ($b == $cur) <=> ($a == $cur) || $a <=> $b } @en; if ($pre <= 0 && @act > 1 && $act[0][1] == $cur && $W[$cur]{at} ne 'S') { @act = ($act[0]); } push @act, map { ['kill', $_] } grep { !$W[$_]{dead} && ($W[$_]{at} ne 'N' || %{ $has[$_] }) } 0 .. $n - 1 if $kills; my $ac = pick(\@act); my ($what, $i) = @$ac; if ($what eq 'run') { $pre-- if $cur >= 0 && $i != $cur && $act[0][1] == $cur; $cur = $i; }
        my $w = $W[$i]; if ($what eq 'kill') { note("kill %d", $i); $kills--; bury($i, 'KILL'); $has[$i] = {}; $in[$i] = undef; next; }
        my $at = $w->{at};
        if ($at eq 'N') { $left[$i]--; my @ops; for my $f (@files) { push @ops, map { ['lock', $f, $_] } @$waits if !$has[$i]{$f} || $o->{again}; push @ops, ['unlock', $f] if $has[$i]{$f}; } push @ops, ['exit'] if %{ $has[$i] } && $o->{exits}; my $op = pick(\@ops); my $how = ($op->[0] eq 'lock' && $o->{ex}) ? choose(2) : 0; note("%d: %s", $i, join(' ', map { s{.*/}{}r } @$op));
            if ($op->[0] eq 'lock') { if ($has[$i]{$op->[1]} && $op->[2] eq '-') { prune(); } $in[$i] = $op->[1]; $since[$i] = $now; $wait[$i] = $op->[2]; $last[$i] = undef; order($i, "lock $now $op->[1] $op->[2] $how"); }
            elsif ($op->[0] eq 'unlock') { delete $has[$i]{$op->[1]}; order($i, "unlock $now $op->[1]"); $w->{n} = 1; next; }
            else { syswrite $w->{s}, "exit $now\n"; bury($i, undef); $has[$i] = {}; next; } }
        elsif ($at eq 'S') { my $t = $w->{arg}; if ($t > 0) { my $till = $w->{wake} || $now + $t; $now = $till if $till > $now; } $w->{wake} = undef; $hist[$i] .= "S@{[$now - $since[$i]]}"; order($i, "go $now"); }
        else { my $err = ''; if ($at =~ /[FW]/) { $last[$i] = $now; if ($faults) { my $k = choose($at eq 'W' ? 3 : 2); if ($k == 1) { $faults--; $err = Errno::ENOLCK(); $w->{hurt} = 1; } elsif ($k == 2) { $faults--; $err = Errno::EINTR(); } } } note("%d: %s%s", $i, $at, $err ? " error $err" : ''); $hist[$i] .= "$at$err"; order($i, "go $now $err"); $hist[$i] .= $w->{at}; }
        if ($W[$i]{at} eq 'S' && $W[$i]{arg} > 0) { $W[$i]{wake} = $now + $W[$i]{arg}; }
        # a call ended
        if (!$w->{dead} && $w->{at} eq 'N' && defined $in[$i]) { my ($f, $r) = ($in[$i], $w->{arg}); $in[$i] = undef; $hist[$i] = ''; note("%d: -> %s", $i, $r); push @log, "$i$r"; my $el = $now - $since[$i]; my $wt = $wait[$i]; my ($sn, $la) = ($since[$i], $last[$i]); $wait[$i] = $since[$i] = $last[$i] = undef;
            if ($r eq 'ok') { req(!$w->{hurt}, "the lock was given though locking failed"); req(!$has[$i]{$f}, "a second handle got the lock held by the same process"); req(!grep({ $has[$_]{$f} } 0 .. $n - 1), "the lock was given while held by another process"); $has[$i]{$f} = 1; }
            elsif ($r eq 'undef') { req(!$w->{hurt}, "an error in locking was reported as a lock in use"); req($wt ne '-', "waiting without limit gave up"); req($el >= $wt, "gave up after $el of $wt seconds"); req($el <= $wt + 1.5, "gave up only after $el of $wt seconds") if $n == 1; req(defined $la && $la >= $sn + $wt - 1.1, "gave up without trying again near the end of the time"); }
            else { req($w->{hurt} || ($o->{missing} && 0), "locking failed without reason"); } $w->{hurt} = 0; } }
    outcome(join ' ', @log); }
sub opens { my $d = dir(); unlink glob("$d/*"); my $f = "$d/o"; my $exists = choose(2); my $um = pick([022, 077, 0]); my $mode = pick([undef, 0600, 0644, 0666, 0777]); my $flags = pick([undef, O_RDWR, O_RDWR | O_CREAT, O_RDONLY, O_WRONLY | O_CREAT, O_RDWR | O_CREAT | O_EXCL]); my $w = pick([undef, 0, 2]); my $ex = choose(2); my $nodir = choose(2) && do { $f = "$d/none/o"; 1 }; my $verbose = choose(2);
    if ($exists && !$nodir) { open my $h, '>', $f; print $h "kept\n"; close $h; chmod 0640, $f; } my $u0 = umask $um; my $fl = defined $flags ? $flags : O_CREAT | O_RDWR; my $there = $exists && !$nodir; my $can = !$nodir && ($there ? !($fl & O_EXCL) : ($fl & O_CREAT)); my $fh; my $ok = eval { local *STDERR; open STDERR, '>', '/dev/null'; $fh = $ex ? Lintel::File::Lock::getLockEx($f, (defined $w ? (waittime => $w) : ()), (defined $flags ? (flags => $flags) : ()), (defined $mode ? (mode => $mode) : ()), verbose => $verbose) : Lintel::File::Lock::getLock($f, $w, $verbose, $flags, $mode); 1 }; my $e = $@; umask $u0; again($e);
    eq_($ok ? 1 : 0, $can ? 1 : 0, "locking with these flags ($e)"); if ($ok) { req(defined $fh, "no handle for a free lock"); req(!free($f), "the file is not locked"); my $g = eval { Lintel::File::Lock::getLock($f, 0, 0, $fl & ~O_EXCL, $mode) }; again($@); req(!defined $g, "a second handle opened the same way was given the lock as well"); my @s = stat $f; eq_(sprintf('%o', $s[2] & 0777), sprintf('%o', $there ? 0640 : (defined $mode ? $mode : 0666) & ~$um), "access rights of the file"); if ($there) { open my $h, '<', $f; my $x = <$h>; eq_($x, "kept\n", "contents of the file"); close $h; } my $wr = $fl & (O_RDWR | O_WRONLY); my $put = defined syswrite($fh, "x") ? 1 : 0; eq_($put, $wr ? 1 : 0, "the handle is writable"); $fh = undef; req(free($f), "the lock is held after the handle is gone"); } else { req(!$there || -s $f, "contents lost"); } outcome("$can"); state("$exists $um " . (defined $mode ? $mode : '') . " $fl"); note("flags %s", $fl); unlink $f; }
# lintel-flock itself
sub script { my $d = dir(); my $s = "$d/lintel-flock"; if (!-e $s) { open my $i, '<', "$ENV{MC_REPO}/src/lintel-flock.in" or die "MC: no lintel-flock.in\n"; local $/; my $t = <$i>; $t =~ s/\@PERL_PATH\@/\/usr\/bin\/perl/g; $t =~ s/\@PERL5_MODULES_INC_UNSHIFT\@/BEGIN { unshift(\@INC, "$ENV{MC_REPO}\/src"); }/g; open my $o, '>', $s; print $o $t; close $o; chmod 0755, $s; } return $s; }
my @kids; sub run_bg { my ($tag, @args) = @_; my $d = dir(); my $s = script(); my $pid = CORE::fork(); if (!$pid) { setpgrp(0, 0); $SIG{CHLD} = 'DEFAULT'; for (@W) { close $_->{s} if $_ && $_->{s}; } open STDOUT, '>', "$d/$tag.out"; open STDERR, '>', "$d/$tag.err"; open STDIN, '<', '/dev/null'; { no warnings "exec"; exec 'perl', "-I$FindBin::Bin", '-MFastSleep', $s, @args; } POSIX::_exit(99); } return $pid; }
sub await { my ($what, $c) = @_; for (1 .. 4000) { reap(); return 1 if $c->(); Time::HiRes::sleep(0.002); } fail_("never: $what", "never happened: $what"); }
my %ST; sub reap { while ((my $p = CORE::waitpid(-1, 1)) > 0) { $ST{$p} = $?; } } sub done { my ($pid) = @_; await("the lock command ends", sub { exists $ST{$pid} }); return delete $ST{$pid}; }
sub adopt { CORE::syscall(157, 36, 1, 0, 0, 0) if $$ != $OWNER; } # orphans come to this process, which collects them at once
sub text { my ($f) = @_; open my $h, '<', $f or return ''; local $/; my $x = <$h>; return defined $x ? $x : ''; }
sub tidy { my ($d) = @_; return if $ENV{MC_KEEP}; unlink glob("$d/*.out"), glob("$d/*.err"), glob("$d/*.up"), glob("$d/*.go"), glob("$d/L*"); }
# only a process running the scratch copy of the lock program is ever signalled
sub ours { my ($p) = @_; my $c = text("/proc/$p/cmdline"); return index($c, "$DIR/lintel-flock") >= 0; }
sub command { adopt(); my $d = dir(); tidy($d); my $f = "$d/L"; my $held = choose(2); my @kind = ('exit 0', 'exit 1', 'exit 7', 'exit 233', 'exit 255', 'kill -TERM $$', 'kill -KILL $$', 'missing', 'background'); my $k = pick(\@kind); my $form = choose(3); my $wt = $held ? pick([0, 1]) : pick([undef, 0, 2]); my $bad = choose(2); my $h; if ($held) { open $h, '>', $f; CORE::flock($h, LOCK_EX) or die "MC: flock\n"; }
    my $probe = q{perl -MFcntl=:flock -e 'open my $h, "<", $ARGV[0]; print flock($h, LOCK_EX|LOCK_NB) ? "free" : "held"' } . $f; my $c = $k eq 'missing' ? "$d/no-such-program" : $k eq 'background' ? "($probe) > $d/r.up; sleep 20 > /dev/null 2>&1 & echo \$! > $d/bg.up; exit 3" : "($probe) > $d/r.up; $k"; prune() if $k eq 'missing' && $form == 1 && 0;
    my @cmd = $form == 0 ? ("--command=$c") : $form == 1 ? ('--', 'sh', '-c', $c) : ($c); prune() if $bad && $k ne 'exit 0'; my @extra = $bad ? (choose(2) ? ('--callpid=1', @cmd) : ("--waittime=-1", @cmd)) : (defined $wt ? "--waittime=$wt" : (), @cmd); prune() if $bad && $form == 0 && $extra[0] =~ /callpid/; my $pid = run_bg('c', "--filename=$f", @extra); my $st = done($pid); my $ran = -s "$d/r.up" ? 1 : 0; my $want; 
    if ($bad) { req($st != 0, "wrong arguments were accepted"); eq_($ran, 0, "command run with wrong arguments"); }
    elsif ($held) { eq_($st, 256, "exit status when the lock is in use"); eq_($ran, 0, "command run without the lock"); }
    else { if ($k eq 'missing') { req($st != 0, "a command which cannot be run reported as success"); } else { eq_($ran, 1, "command run"); eq_(text("$d/r.up"), 'held', "lock while the command runs"); my ($n) = $k =~ /exit (\d+)/; if (defined $n) { eq_($st >> 8, $n, "exit status passed on"); } elsif ($k eq 'background') { eq_($st >> 8, 3, "exit status passed on"); } else { req($st != 0, "a killed command reported as success"); } } }
    undef $h; my $bg = text("$d/bg.up"); my $isfree = free($f); if ($bg =~ /^(\d+)/) { CORE::kill('KILL', $1); } req($isfree, "lock still held after the command ended"); outcome("$held $k $st"); state("$held $k $form"); note("%s -> %s", $k, $st); tidy($d); }
# two instances running commands that wait for permission to end; every order of start, end and kill
sub pair { adopt(); my ($len, $cp) = @_; my $d = dir(); tidy($d); my $f = "$d/L"; my @i = map { { n => $_, st => 'new' } } 0, 1; my $log = ''; my $ok = eval { 
      for my $s (1 .. $len) { my @act; for my $x (@i) { push @act, ['start', $x] if $x->{st} eq 'new'; push @act, ['end', $x], ['kill', $x] if $x->{st} eq 'run'; push @act, ['kill', $x] if $x->{st} eq 'wait'; } last if !@act; my ($a, $x) = @{ pick(\@act) }; my $n = $x->{n}; $log .= "$a$n "; note("%s %d", $a, $n); my $other = $i[1 - $n]; MC::step();
        if ($a eq 'start') { $x->{pid} = run_bg("i$n", "--filename=$f", '--', 'perl', '-e', "open my \$u, '>', '$d/i$n.up'; close \$u; for (1 .. 20000) { last if -e '$d/i$n.go' || getppid() == 1; select(undef, undef, undef, 0.002); } exit " . (5 + $n)); $x->{st} = 'wait'; if ($other->{st} eq 'run') { Time::HiRes::sleep(0.06); req(!-e "$d/i$n.up", "both instances run their command at once"); } }
        elsif ($a eq 'end') { open my $g, '>', "$d/i$n.go"; close $g; my $st = done($x->{pid}); eq_($st >> 8, 5 + $n, "exit status passed on"); $x->{st} = 'end'; }
        else { CORE::kill('KILL', -$x->{pid}); done($x->{pid}); $x->{st} = 'end'; }
        my @r = grep { $_->{st} eq 'run' } @i; my @w = grep { $_->{st} eq 'wait' } @i; if (!@r && @w) { my $who; await("a waiting instance runs once the lock is free", sub { ($who) = grep { -e "$d/i$_->{n}.up" } @w; $who }); $who->{st} = 'run'; } state(join ',', map { $_->{st} } @i); }
      1 }; my $e = $@; for (@i) { if ($_->{pid} && $_->{st} ne 'end') { CORE::kill('KILL', -$_->{pid}); CORE::waitpid($_->{pid}, 0); } } die $e unless $ok; req(free($f), "lock held after all ended"); outcome($log); tidy($d); }
# lock for a calling process, released by --unlock, by the caller's exit, or by killing the holder
sub callpid { adopt(); my $d = dir(); tidy($d); my $f = "$d/L"; my $held = choose(2); my $h; if ($held) { open $h, '>', $f; CORE::flock($h, LOCK_EX); } my $verb = choose(2); my $wt = $held ? pick([0, 1]) : pick([undef, 0]); my $second = $held ? 0 : choose(2); my $way = $held ? 0 : choose(3); my $bad = $held ? 0 : choose(6); prune() if $bad && ($verb || $second); my $caller = CORE::fork(); if (!$caller) { for (@W) { close $_->{s} if $_ && $_->{s}; } undef $h; { no warnings "exec"; exec "sleep", "30"; } POSIX::_exit(1); } my $pid = run_bg('c', "--filename=$f", "--callpid=$caller", (defined $wt ? "--waittime=$wt" : ()), ($verb ? '--verbose' : ())); my $holder; my $ok = eval { my $st = done($pid); my $out = text("$d/c.out"); 
      if ($held) { eq_($out, "timeout\n", "answer when the lock is in use"); eq_($st, 256, "exit status when the lock is in use"); undef $h; req(free($f), "lock left behind by a failed attempt"); }
      else { eq_($st, 0, "exit status"); req($out =~ /^success: V1: (\d+)\n\z/, "answer '$out'"); ($holder) = $out =~ /: (\d+)$/; if (!ours($holder)) { my $p = $holder; undef $holder; fail_("holder", "the answer names process $p, which is not a lock holder"); }  req(!free($f), "lock not held after it was given"); if ($second) { my $p2 = run_bg('d', "--filename=$f", "--callpid=$$", '--waittime=0'); eq_(done($p2), 256, "second attempt"); eq_(text("$d/d.out"), "timeout\n", "answer to a second attempt"); req(!free($f), "lock lost"); } Time::HiRes::sleep(0.05); req(!free($f), "lock lost while the caller still runs"); chomp $out;
        if ($way == 0) { my $u = run_bg('u', "--unlock=$out"); eq_(done($u), 0, "exit status of unlocking"); req(free($f), "lock held after unlocking"); } elsif ($way == 1) { CORE::kill('KILL', $caller); CORE::waitpid($caller, 0); await("lock released when its caller ended", sub { free($f) }); } else { CORE::kill('KILL', $holder) if ours($holder); await("lock released with its holder", sub { free($f) }); } outcome("$way$second"); }
      state("$held"); 1 }; my $e = $@; CORE::kill('KILL', $caller); CORE::waitpid($caller, 0); CORE::kill('TERM', $holder) if $holder && ours($holder); die $e unless $ok; if ($bad) { my $u = run_bg('u', '--unlock=' . ('', 'success', 'success: V1: x', 'timeout', 'success: V2: 1')[$bad - 1]); req(done($u) != 0, "unlocking with a wrong string succeeded"); } note("%s", $held ? 'in use' : 'given'); tidy($d); }
sub configs { my $x = thorough();
    config("two_processes", sub { sched(2, $x ? 4 : 3, [0, '-', 2], {}) }, "two processes, every order of their locking system calls, sleeps and operations");
    config("three_processes", sub { sched(3, 2, ['-', 0], {}) }, "three processes");
    config("kills", sub { sched(2, $x ? 3 : 2, ['-', 0, 2], { kills => 1, exits => 1 }) }, "a process killed at any system call, or exiting with the lock");
    config("two_files", sub { sched(2, $x ? 3 : 2, ['-', 0], { files => 2, again => 1, ex => 1 }) }, "two files, a process locking the same file again, both call forms");
    config("faults", sub { sched(2, 2, ['-', 0, 2], { faults => 1, missing => 1 }) }, "a locking call failing or interrupted at any point, the file missing at first");
    config("opens", \&opens, "every open mode, access mode, umask and presence of the file");
    config("command", \&command, "the lock command: every way to give the command, exit status, lock in use or not", 1);
    config("pair", sub { pair($x ? 5 : 4) }, "two lock commands, every order of start, end and kill", 1);
    config("callpid", \&callpid, "locking for a calling process, every way to release", 1); }
run_main();
