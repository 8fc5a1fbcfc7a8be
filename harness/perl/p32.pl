# P32: batch-parallel and its modules. The real program and modules run on scratch files as an unprivileged user; forks,
# waits, file operations and commands go through stand-ins which choose the order children end in, what fails, and where
# everything stops. Batch systems are replaced by recorders whose recorded command is then run for every index.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC; use POSIX (); use Symbol (); use IO::Handle; use File::Path (); use Digest::MD5 'md5_hex'; use IO::Compress::Gzip; use IO::Compress::Bzip2;
my $OWNER = $$; my $BASE = "/tmp/mcp32.$OWNER"; my $C = "$BASE.common"; my $D;
our ($RUN, $CHILD, $MAIN, $DEAD, $GO, $LIMIT, $TICKS, $K, $MODE, $SCHED, $LOGF, $RAND, $LIVE, $PEAK) = (0, 0); my %KIDS; my $seq = 0;
END { if (defined $OWNER && $$ == $OWNER) { File::Path::remove_tree($_) for glob("$BASE.*"); } }
sub crash { if ($CHILD) { open my $h, '>', "$D/crashed"; POSIX::_exit(0); } $DEAD = 1; die bless [], 'Stopped'; }
# every change the program makes passes here; false means: this one fails
sub op { my ($what) = @_; return 1 unless $RUN; die bless [], 'Stopped' if $DEAD; open my $h, '>>', "$D/ops" or POSIX::_exit(98); syswrite $h, 'x'; close $h; my $n = -s "$D/ops"; if ($K && $n == $K) { crash() if $MODE eq 'stop'; $! = 5; return 0; } return 1; }
BEGIN { no warnings;
    *CORE::GLOBAL::exit = sub { my $c = @_ ? $_[0] : 0; CORE::exit($c) unless $RUN; if ($CHILD) { STDOUT->flush; STDERR->flush; POSIX::_exit($c & 255); } die bless [$c], 'Exit'; };
    *CORE::GLOBAL::fork = sub { return CORE::fork() unless $RUN && !$CHILD; op('fork') or return undef; STDOUT->flush; STDERR->flush; pipe(my $r, my $w) or return undef; my $p = CORE::fork(); return undef unless defined $p;
        if (!$p) { $CHILD = 1; close $w; %KIDS = (); if (defined $LIMIT) { $SIG{XFSZ} = 'IGNORE'; syscall(160, 1, pack('QQ', $LIMIT, $LIMIT)); } my $n = sysread $r, $GO, 1; POSIX::_exit(96) unless $n; close $r; return 0; }
        close $r; $KIDS{$p} = { go => $w, n => ++$seq }; $LIVE = keys %KIDS; $PEAK = $LIVE if $LIVE > $PEAK; return $p; };
    my $reap = sub { my ($only) = @_; die bless [], 'Stopped' if $DEAD; my @p = sort { $KIDS{$a}{n} <=> $KIDS{$b}{n} } keys %KIDS; @p = grep { $_ == $only } @p if $only > 0; if (!@p) { $! = 10; $? = -1; return -1; } my ($p, $go) = $SCHED->(@p); syswrite $KIDS{$p}{go}, $go; CORE::waitpid($p, 0); my $st = $?; delete $KIDS{$p}; crash() if -e "$D/crashed"; $? = $st; return $p; };
    *CORE::GLOBAL::wait = sub { return CORE::wait() unless $RUN && !$CHILD; $reap->(-1) };
    *CORE::GLOBAL::waitpid = sub { return CORE::waitpid($_[0], $_[1]) unless $RUN && !$CHILD; if ($_[1] & 1) { return 0 if %KIDS && MC::choose(2); } $reap->($_[0]) };
    *CORE::GLOBAL::unlink = sub { my $n = 0; for (@_ ? @_ : $_) { $n++ if op('unlink') && CORE::unlink($_); } $n };
    *CORE::GLOBAL::rename = sub ($$) { op('rename') ? CORE::rename($_[0], $_[1]) : 0 };
    *CORE::GLOBAL::mkdir = sub { op('mkdir') ? CORE::mkdir($_[0], @_ > 1 ? $_[1] : 0777) : 0 };
    *CORE::GLOBAL::rmdir = sub { op('rmdir') ? CORE::rmdir(@_ ? $_[0] : $_) : 0 };
    *CORE::GLOBAL::system = sub { my @a = @_; if (!op('system')) { $? = 256; return 256; } STDOUT->flush; STDERR->flush; my $r = CORE::system(@a); if ($K && -s "$D/ops" == $K - 1) { op('after'); } return $r; };
    *CORE::GLOBAL::rand = sub { return CORE::rand(@_ ? $_[0] : 1) unless $RUN && !$CHILD && defined $RAND; my $n = @_ && $_[0] ? $_[0] : 1; my $c = POSIX::ceil($n); return $RAND ? MC::choose($c) + ($n > 1 ? 0.5 : 0) : 0; };
}
sub put { my ($f, $x) = @_; (my $p = $f) =~ s{/[^/]+$}{}; File::Path::make_path($p) unless -d $p; open my $h, '>', $f or die "MC: $f: $!\n"; binmode $h; print $h $x; close $h; }
sub get { my ($f) = @_; open my $h, '<', $f or return undef; binmode $h; local $/; my $x = <$h>; return defined $x ? $x : ''; }
sub common { mkdir $C, 0755; my $r = $ENV{MC_REPO}; for (glob("$r/src/BatchParallel/*.pm"), glob("$r/src/Lintel/*.pm"), glob("$r/src/Lintel/*/*.pm")) { (my $t = $_) =~ s{^\Q$r\E/src/}{}; put("$C/src/$t", get($_)); } my $t = get("$r/src/batch-parallel.in"); die "MC: no batch-parallel.in\n" unless defined $t; $t =~ s/\@PERL_PATH\@/\/usr\/bin\/perl/g; $t =~ s/\@PERL5_MODULES_INC_UNSHIFT\@/BEGIN { unshift(\@INC, "$C\/src"); }/g; $t =~ s/\@CMAKE_INSTALL_PREFIX\@/$C\/prefix/g; put("$C/batch-parallel", $t); chmod 0755, "$C/batch-parallel";
    for my $q ('qsub', 'bsub') { put("$C/bin/$q", "#!/bin/sh\nprintf '%s\\0' $q \"\$@\" > \"\$MC_REC\"\nexit \${MC_SUBMIT:-0}\n"); } put("$C/bin/bparams", "#!/bin/sh\nprintf '%s\\n' \"\$MC_BPARAMS\"\n"); chmod 0755, glob("$C/bin/*");
    put("$C/mods/BatchParallel/T.pm", <<'M'); put("$C/mods2/BatchParallel/U.pm", get("$C/mods/BatchParallel/T.pm") =~ s/::T\b/::U/gr); put("$C/mods/BatchParallel/F.pm", <<'M2');
package BatchParallel::T; use strict; use warnings; use vars '@ISA'; @ISA = ('BatchParallel::common');
sub new { my $class = shift; my %a = map { split /=/, $_, 2 } @_; return bless { %a }, $class; }
sub default_source_locations { return ('.') }
sub find_things_to_build { my ($this) = @_; my $s = { common => 'x' }; return ($this->{n} + 1, map { $this->{kind} == 0 ? ["p$_", "s\n'$_", "d$_"] : $this->{kind} == 1 ? "item \$$_" : bless({ id => "o$_", s => $s }, 'BatchParallel::T::Thing') } 1 .. $this->{n}); }
sub id { my $t = $_[1]; my $x = ref $t eq 'ARRAY' ? $t->[0] : ref $t ? ($t->{s}{common} eq 'x' ? $t->{id} : 'broken') : $t; $x =~ s/\D//g; return $x; }
sub put { open my $h, '>>', $main::LOGF or die; syswrite $h, "@_\n"; }
sub pre_exec_setup { put('setup', 0); }
sub rebuild_thing_message { my ($this, $t) = @_; put('msg', $this->id($t)); }
sub rebuild_thing_do { my ($this, $t) = @_; put('do', $this->id($t), $ENV{MC_MARK} || '-'); my $go = $main::GO; kill 'KILL', $$ if $go eq 'k'; die "told to die\n" if $go eq 'd'; return if $go eq 'r'; exit($go eq '0' ? 0 : $go eq 'm' ? 255 : 1); }
sub rebuild_thing_success { my ($this, $t) = @_; put('ok', $this->id($t)); }
sub rebuild_thing_fail { my ($this, $t) = @_; put('fail', $this->id($t)); die "cannot tell\n" if $this->{faildie}; }
1;
M
package BatchParallel::F; use strict; use warnings; use vars '@ISA'; @ISA = ('BatchParallel::common');
sub new { my $class = shift; my %a = map { split /=/, $_, 2 } @_; return bless { %a }, $class; }
sub file_is_source { my ($this, $prefix, $full, $name) = @_; return $name =~ /\.src$/ && -f $name; }
sub destination_file { my ($this, $prefix, $full) = @_; $full =~ s/\.src$/.dst/; return $full; }
sub rebuild { my ($this, $prefix, $src, $dst) = @_; my $x = main::get($src); main::op('open') or return 0; open my $h, '>', $dst or return 0; for my $i (0 .. 2) { main::op('write') or return $this->{dies} ? die("write failed\n") : 0; syswrite $h, substr($x, $i * 4, $i == 2 ? length $x : 4); } close $h; main::op('close') or return 0; return 1; }
1;
M2
    system('chmod', '-R', 'a+rX', $C); }
sub work { if (!defined $D || $D ne "$BASE.$$") { $D = "$BASE.$$"; mkdir $D, 0755; if ($< == 0) { chown 65534, 65534, $D; $( = 65534; $) = "65534 65534"; ($<, $>) = (65534, 65534); POSIX::setuid(65534); die "MC: still privileged\n" if $< == 0 || $> == 0; } } chdir $D or die; for my $t ("$D/w", "$D/home") { File::Path::remove_tree($t) if -d $t; } CORE::unlink("$D/log", "$D/rec"); File::Path::make_path("$D/w", "$D/home"); $LOGF = "$D/log"; put($LOGF, ''); $SCHED = sub { ($_[0], '0') }; $K = $LIMIT = undef; $RAND = 0; return "$D/w"; }
sub logs { return map { [split / /] } split /\n/, get($LOGF); }
sub forget { my ($p) = @_; no strict 'refs'; for my $k (grep { /::\z/ } keys %{ "${p}::" }) { my $q = "${p}::" . substr($k, 0, -2); forget($q); Symbol::delete_package($q); } }
# one run of the program in this process
sub bp { my ($args, %o) = @_; local %ENV = (PATH => "$C/bin:/usr/bin:/bin", HOME => "$D/home", BP_MODULES => "$C/mods", MC_REC => "$D/rec", %{ $o{env} || {} }); local @ARGV = @$args; local @INC = @INC; my @sv = map { my $h = $_; open my $s, '>&', $h or die; $s } \*STDOUT, \*STDERR; open STDOUT, '>', "$D/out"; open STDERR, '>', "$D/err"; STDOUT->autoflush(1); STDERR->autoflush(1); CORE::unlink("$D/ops", "$D/crashed"); put("$D/ops", ''); delete $INC{$_} for grep { m{^BatchParallel/} } keys %INC; forget('BatchParallel'); my $z = $0; $0 = "$C/batch-parallel"; my $cwd = $o{cwd} || $D; chdir $cwd or die "MC: chdir\n"; %KIDS = (); $seq = 0; $LIVE = $PEAK = 0; $DEAD = 0; $MAIN = $$; my $pid = $$; my $e;
    { local $^W = 0; no warnings; local $SIG{__WARN__} = 'DEFAULT'; local $_; $RUN = 1; undef $@; undef $!; my $r = do "$C/batch-parallel"; $e = $@; if ($$ != $pid) { if (ref $e eq 'Exit') { POSIX::_exit($e->[0]); } print STDERR $e; STDERR->flush; STDOUT->flush; POSIX::_exit(255); } $RUN = 0; }
    STDOUT->flush; STDERR->flush; for my $i (0, 1) { my $s = $sv[$i]; if ($i) { open STDERR, '>&', $s; } else { open STDOUT, '>&', $s; } } $0 = $z; chdir $D; my @left = keys %KIDS; for (@left) { CORE::kill('KILL', $_); CORE::waitpid($_, 0); } %KIDS = (); again($e); my $stop = ref $e eq 'Stopped' || $DEAD; my $code = ref $e eq 'Exit' ? $e->[0] : $stop ? 137 : $e ne '' ? 255 : 0; MC::step(-s "$D/ops");
    req($stop || $code == 255 || !@left, "the program ended with work still running"); return { stop => $stop, code => $code, e => ref $e ? '' : $e, out => get("$D/out"), err => join('', grep { !/^\s*(\(stdin\):.*|tar: Removing leading.*|\s*-?[\d.]+%.*)?$/ } split /^/, get("$D/err")), ops => -s "$D/ops" }; }
# division over batch jobs
sub partition { my ($max) = @_; my $n = 1 + choose($max); my $sys = pick(['lsf', 'sge']); my $opt = choose(3); my @o; my ($g, $m, $w, $bpm); $w = 1 + choose($opt == 2 ? 3 : 1); if ($opt == 0) { $g = 1 + choose($n + 1); @o = ("--groupsize=$g"); } elsif ($opt == 1) { $m = 1 + choose($n + 1); @o = ("--maxgroups=$m"); } else { $bpm = pick(['', 1, 4, 7, 100]); } my $kind = choose(3); my $noshuf = choose(2); my $where = choose(2); my $env = choose(2); prune() if $n > 4 && ($where || $env || $kind != 1 || $noshuf != $n % 2); prune() if $env && ($kind || $noshuf) || $where && !$env && $kind != 1; my $q = choose(2); prune() if $q && ($sys eq 'sge' || $kind != 2); work();
    my %e = ($sys eq 'lsf' ? (LSF_ENVDIR => '/x') : (SGE_ROOT => '/x'), $bpm ? (MC_BPARAMS => "    MAX_JOB_ARRAY_SIZE = $bpm") : (), MC_MARK => 'kept'); my $mod = $where ? "$C/mods2/U" : 'T'; my @wd = $where && $kind == 1 ? ("--batch-workdir=$D/w/my") : (); my $r = bp(['-w', $w, @o, @wd, ($q ? ('-q', 'night') : ()), ($noshuf ? '--noshuffle' : ()), ($env ? '--transfer-env' : ()), '--', $mod, "n=$n", "kind=$kind", '--', '.'], env => \%e);
    eq_($r->{code}, 0, "submitting $n items ($r->{e}$r->{err})"); req(-e "$D/rec", "nothing was submitted"); my @c = split /\0/, get("$D/rec"); eq_(scalar(grep { $_->[0] eq 'do' } logs()), 0, "items done while submitting"); my ($jobs) = join(' ', @c) =~ ($sys eq 'lsf' ? qr/\[1-(\d+)\]/ : qr/-t 1-(\d+)/); req(defined $jobs, "no index range in the submission"); if ($q) { req(join(' ', @c) =~ /-q night/, "queue not passed on"); } if ($sys eq 'lsf') { req(join(' ', @c) =~ /\]%$w( |$)/, "job width not passed on"); } if (@wd) { req(-d "$D/w/my", "the given directory is not used"); }
    if (defined $m) { req($jobs <= $m, "$jobs jobs where $m are allowed"); } if (!defined $g && !defined $m) { req($jobs <= 5 * $w, "$jobs jobs for width $w"); req(!$bpm || $jobs <= $bpm, "$jobs jobs where the system allows $bpm"); } my ($at) = grep { $c[$_] eq "$C/batch-parallel" } 0 .. $#c; req(defined $at, "the submission does not run the program"); my @args = @c[$at + 1 .. $#c]; my $var = $sys eq 'lsf' ? 'LSB_JOBINDEX' : 'SGE_TASK_ID'; my (%seen, @order); my @ix = (1 .. $jobs); @ix = reverse @ix if $noshuf;
    for my $i (@ix, $jobs + 1) { put($LOGF, ''); my $j = bp(\@args, env => { $var => $i }); my @do = grep { $_->[0] eq 'do' } logs(); if ($i > $jobs) { eq_(scalar @do, 0, "items done by a job beyond the last"); last; } eq_($j->{code}, 0, "job $i of $jobs ($j->{e}$j->{err})"); req(@do > 0, "job $i of $jobs has nothing to do"); req(!defined $g || @do <= $g, "job $i has " . @do . " items where $g are allowed"); req($PEAK <= 1, "a job runs several items at once"); for (@do) { req(!$seen{$_->[1]}++, "item $_->[1] done twice"); eq_($_->[2], 'kept', "environment") if $env; } eq_(join(',', map { $_->[1] } grep { $_->[0] eq 'ok' } logs()), join(',', map { $_->[1] } @do), "items reported done"); if ($noshuf) { eq_(join(',', map { $_->[1] } @do), join(',', sort { $a <=> $b } map { $_->[1] } @do), "order within a job"); } }
    eq_(join(',', sort { $a <=> $b } keys %seen), join(',', 1 .. $n), "items done"); state("$n $jobs $opt"); outcome("$n $jobs"); note("%d items, %s: %d jobs", $n, "@o", $jobs); }
sub submitfail { work(); my $sys = pick(['lsf', 'sge', 'none']); my $n = 1 + choose(2); my $dry = choose(2); my %e = ($sys eq 'lsf' ? (LSF_ENVDIR => '/x') : $sys eq 'sge' ? (SGE_ROOT => '/x') : (), MC_SUBMIT => 3); my $r = bp(['-w', 2, ($dry ? '-n' : ()), 'T', "n=$n", "kind=0", '--', '.'], env => \%e); if ($dry && $sys ne 'none') { eq_($r->{code}, 0, "dry run ($r->{e})"); req(!-e "$D/rec", "a dry run submitted something"); } else { eq_($r->{code}, 255, "failed submission"); } eq_(scalar(grep { $_->[0] eq 'do' } logs()), 0, "items done"); outcome("$sys$dry"); state("$sys$dry$n"); note("%s", $sys); }
# local runs: every order of children ending, each with every kind of end
sub locals { my ($max, @kinds) = @_; work(); my $n = choose($max + 1); my $j = 1 + choose(3); my $fd = choose(2); my $dry = choose(2); prune() if $dry && $fd; my %want; my @sent; my $step = 0; $SCHED = sub { my $i = choose(scalar @_); my $g = pick(\@kinds); push @sent, $g; return ($_[$i], $g); }; my $r = bp(['-j', $j, '--noshuffle', ($dry ? '-n' : ()), 'T', "n=$n", 'kind=0', ($fd ? 'faildie=1' : ()), '--', '.']); my @l = logs(); eq_($r->{code}, 0, "run ($r->{e} $r->{err})"); my @do = map { $_->[1] } grep { $_->[0] eq 'do' } @l; req($PEAK <= $j, "$PEAK items at once where $j are allowed");
    if ($dry) { eq_("@do", '', "items done in a dry run"); eq_(join(' ', sort map { $_->[1] } grep { $_->[0] eq 'msg' } @l), join(' ', 1 .. $n), "items told"); } else { eq_(join(' ', sort @do), join(' ', 1 .. $n), "items done"); my $x = 0; my $exp = ''; my $got = ''; for (@l) { if ($_->[0] eq 'do') { $exp .= ($sent[$x++] eq '0' ? 'ok' : 'fail') . " $_->[1];"; } elsif ($_->[0] =~ /ok|fail/) { $got .= "$_->[0] $_->[1];"; } } eq_($got, $exp, "what the module was told"); req($PEAK == ($n < $j ? $n : $j), "only $PEAK at once"); } outcome(join ',', map { "@$_" } @l); state("$n $j @sent"); note("%s", join ' ', map { "$_->[0]$_->[1]" } @l); }
sub shuffles { my ($max) = @_; work(); my $n = choose($max + 1); $RAND = 1; my $r = bp(['-j', 1, 'T', "n=$n", 'kind=1', '--', '.']); eq_($r->{code}, 0, "run ($r->{e})"); my @do = map { $_->[1] } grep { $_->[0] eq 'do' } logs(); eq_(join(' ', sort { $a <=> $b } @do), join(' ', 1 .. $n), "items done"); outcome("@do"); state("@do"); note("%s", "@do"); }
# stop or fail at every step; then the same again without faults
my %OPS; sub steps { my ($key, $f) = @_; my $n = $OPS{$key}; if (!defined $n) { local ($K, $MODE); $n = $OPS{$key} = $f->(); } return $n; }
sub inject { my ($key, $make, $args) = @_; my $n = steps($key, sub { $make->(); my $r = bp($args->()); $r->{ops} }); $make->(); my $k = choose($n + 2); if ($k) { $K = $k; $MODE = choose(2) ? 'stop' : 'fail'; } return $k; }
my @NAMES = ('a', 'b c');
sub outputs { my $n = 1 + choose(2); my $old = choose(2); my $dies = choose(2); my $j = 1 + choose($n); my $make = sub { my $w = work(); for my $i (1 .. $n) { put("$w/s/$i.src", "contents of file $i"); utime 1e9 + 100, 1e9 + 100, "$w/s/$i.src"; if ($old) { put("$w/s/$i.dst", "old $i"); utime 1e9, 1e9, "$w/s/$i.dst"; } } }; my $args = sub { ['-j', $j, '--noshuffle', 'F', ($dies ? 'dies=1' : ()), '--', "$D/w/s"] }; my $k = inject("o$n$old$dies$j", $make, $args); my $m = $MODE; $SCHED = sub { ($_[choose(scalar @_)], '0') }; my $r = bp($args->()); my $all = 1; for my $i (1 .. $n) { my $x = get("$D/w/s/$i.dst"); my $c = "contents of file $i"; req(!defined $x || $x eq $c || $old && $x eq "old $i", "destination holds '" . ($x // '') . "'"); $all = 0 unless defined $x && $x eq $c; eq_(get("$D/w/s/$i.src"), $c, "source"); } req($all || $r->{stop} || $r->{code} || $r->{err} ne '', "a failure was not reported"); req($all || $k, "destination missing without a fault ($r->{e})"); $K = undef; my $r2 = bp($args->()); eq_($r2->{code}, 0, "running again ($r2->{e})"); for my $i (1 .. $n) { eq_(get("$D/w/s/$i.dst"), "contents of file $i", "destination after running again"); } my $r3 = bp($args->()); eq_($r3->{ops}, 0, "a third run finds work"); outcome("$all $r->{code}"); state("$n$old$dies$j $k" . ($m || '')); note("step %d %s", $k, $m || ''); }
# compression
my $TEXT = "some text to keep, some text to keep; the end\n"; my (%FIX);
sub gz { my ($x) = @_; my $o; IO::Compress::Gzip::gzip(\$x, \$o, -Minimal => 1); return $o; } sub bz { my ($x) = @_; my $o; IO::Compress::Bzip2::bzip2(\$x, \$o); return $o; }
sub fix { %FIX = ('' => $TEXT, '.gz' => gz($TEXT), '.bz2' => bz($TEXT), '.bz2.gz' => gz(bz($TEXT)), '.gz.bz2' => bz(gz($TEXT))) unless %FIX; return \%FIX; }
# what the tools themselves make of a file: contents, and whether it is sound
my %UN; sub unpacked { my ($file, $ext) = @_; my $x = get($file); return (undef, 0) unless defined $x; my $key = "$ext " . md5_hex($x); return @{ $UN{$key} } if $UN{$key}; my $sound = 1; while ($ext =~ s/\.(gz|bz2)$//) { put("$D/un.in", $x); my $t = $1 eq 'gz' ? 'gzip' : 'bzip2'; my $s = CORE::system("$t -dc < '$D/un.in' > '$D/un.out' 2>/dev/null"); $sound = $s == 512 && $t eq 'gzip' ? 2 : 0 if $s; $x = get("$D/un.out"); last if $sound == 0; } $UN{$key} = [$x, $sound]; return ($x, $sound); }
sub comp_run { my ($src, $ext, $type, $opts, $r, $before, $what) = @_; my ($good, $sound) = ($before->{good}, $before->{sound}); my $dst = $before->{dst}; my $has = get($src); my ($dx, $ds) = unpacked($dst, ".$type"); my $done = defined $dx && $ds == 1 && $sound && $dx eq $good && (!defined $before->{old} || get($dst) ne $before->{old}); 
    req(!defined $dx || $done || defined $before->{old} && get($dst) eq $before->{old}, "$what: the destination is neither complete nor as it was"); if (!defined $has) { req($done, "$what: the source is gone and its data is not in the destination"); req(!grep({ $_ eq 'noclean' } @$opts), "$what: source removed though told not to"); } else { eq_($has, $before->{src}, "$what: source changed"); } if (!$done) { req($r->{stop} || $r->{code} || $r->{err} =~ /\S/, "$what: a failure was not reported"); } return $done; }
sub comp_case { my ($damage) = @_; my $type = pick(['bz2', 'gz']); my $ext = pick([grep { !/\.$type$/ } sort keys %{ fix() }]); my @opts = ($type); push @opts, 'nocheck' if choose(2); push @opts, 'noclean' if choose(2); return ($type, $ext, @opts); }
sub comp_setup { my ($ext, $type, $name, $data, $old) = @_; my $w = work(); put("$w/s/$name$ext", $data); my $dst = "$w/s/$name.$type"; put($dst, $old) if defined $old; my ($good, $sound) = unpacked("$w/s/$name$ext", $ext); return { src => $data, old => $old, good => $good, sound => $sound, dst => $dst, path => "$w/s/$name$ext" }; }
sub tidy_rest { my ($b, @more) = @_; my %ok = map { $_ => 1 } $b->{path}, $b->{dst}, @more; my @bad = grep { !$ok{$_} } glob("'$D/w/s/'*"); return @bad; }
sub damaged { my ($type, $ext, @opts) = comp_case(); my $x = fix()->{$ext}; prune() if $ext eq ''; my $how = choose(2); my $at = choose(length $x); if ($how == 0) { $x = substr($x, 0, $at); } else { substr($x, $at, 1) ^= chr(1 << choose(thorough() ? 8 : 2) * (thorough() ? 1 : 5)); } my $b = comp_setup($ext, $type, 'f', $x, undef); my $r = bp(['-j', 1, 'compress', @opts, '--', $b->{path}]); my $done = comp_run($b->{path}, $ext, $type, \@opts, $r, $b, 'damaged input'); req($done || $b->{sound} != 1, "a sound file was not compressed ($r->{err})"); outcome("$done $b->{sound}"); state("$type$ext$how$at"); note("%s at %d", $ext, $at); }
sub inner { my ($type, $ext, @opts) = comp_case(); prune() unless $ext =~ /^\.(gz|bz2)\.(gz|bz2)$/; my ($in, $out) = ($1, $2); my $x = fix()->{".$in"}; my $at = choose(length $x); $x = substr($x, 0, $at); $x = $out eq 'gz' ? gz($x) : bz($x); my $b = comp_setup($ext, $type, 'f', $x, undef); my $r = bp(['-j', 1, 'compress', @opts, '--', $b->{path}]); my $done = comp_run($b->{path}, $ext, $type, \@opts, $r, $b, 'damaged inner file'); outcome("$done"); state("$ext$at"); note("%s at %d", $ext, $at); }
sub limited { my ($type, $ext, @opts) = comp_case(); my $old = choose(2) ? 'older' : undef; my $l = thorough() ? choose(140) : 4 * choose(35); prune() if !thorough() && @opts > 2; my $b = comp_setup($ext, $type, 'f', fix()->{$ext}, $old); $LIMIT = $l; my $r = bp(['-j', 1, 'compress', @opts, '--', $b->{path}]); my $done = comp_run($b->{path}, $ext, $type, \@opts, $r, $b, "no more than $l bytes can be written"); outcome("$done"); state("$type$ext$l"); note("limit %d", $l); }
sub stopped { my ($type, $ext, @opts) = comp_case(); push @opts, 'ifsmaller' if choose(2); my $old = choose(2) ? 'older' : undef; my $b; my $make = sub { $b = comp_setup($ext, $type, 'f', fix()->{$ext}, $old); }; my $args = sub { ['-j', 1, 'compress', @opts, '--', "$D/w/s/f$ext"] }; my $k = inject("c@opts$ext" . (defined $old ? 1 : 0), $make, $args); my $m = $MODE || ''; my $r = bp($args->()); my $done = comp_run($b->{path}, $ext, $type, \@opts, $r, $b, "$m at step $k"); my $small = grep { $_ eq 'ifsmaller' } @opts; req($done || $k || $small, "not compressed without a fault ($r->{err}$r->{e})"); req(!$done || !$small || -s $b->{dst} <= length $b->{src}, "a larger file was kept"); $K = undef; if (-e $b->{path}) { my $r2 = bp($args->()); $b->{old} = get($b->{dst}) if !$done; my ($dx, $ds) = unpacked($b->{dst}, ".$type"); req($small || (defined $dx && $ds == 1 && $dx eq $b->{good}), "running again did not finish ($r2->{err})"); if (!$small && !grep { $_ eq 'noclean' } @opts) { req(!-e $b->{path}, "source still there after running again"); } } outcome("$done$r->{code}"); state("$type$ext@opts$k$m"); note("%s step %d", $m, $k); }
sub names { my $type = pick(['bz2', 'gz']); my $ext = pick(['', $type eq 'bz2' ? '.gz' : '.bz2']); my $name = pick(['a b', "it's", 'x$HOME', 'semi;colon', 'q"q', 'back\\slash', 'star*', 'a|b', 'amp&', '(p)', 'new#1', "tab\tx", '-dash', '<in', '>out', '`id`', '$(id)', "nl\nx", '!x', '~', '%s']); my $b = comp_setup($ext, $type, $name, fix()->{$ext}, undef); my @other = ("$D/w/s/a", "$D/w/s/b", "$D/w/s/star", "$D/w/s/x", "$D/w/a"); put($_, "another file $_") for @other; my $r = bp(['-j', 1, 'compress', $type, '--', $b->{path}]); my $done = comp_run($b->{path}, $ext, $type, [], $r, $b, "file '$name'"); req($done, "file '$name' was not compressed ($r->{err})"); eq_(get($_), "another file $_", "another file") for @other; my @more = grep { my $f = $_; !grep { $f eq $_ } @other, $b->{dst} } all("$D/w"); eq_("@more", '', "other files left"); outcome($name); state("$name$ext$type"); note("%s", $name); }
sub all { my ($d) = @_; my @r; opendir my $h, $d or return; for (sort readdir $h) { next if /^\.\.?$/; if (-d "$d/$_") { push @r, all("$d/$_"); } else { push @r, "$d/$_"; } } return @r; }
# several sources: shared destinations and overlapping arguments
sub several { my $type = pick(['bz2', 'gz']); my @set = ('f', 'f.gz', 'f.bz2', 'g', 'd/f'); my @have = grep { choose(2) } @set; prune() if !@have; my $form = choose(3); my @args = $form == 0 ? ('s') : $form == 1 ? ('s', 's') : ('s', map { "s/$_" } @have); my $j = 1 + choose(2); my $w = work(); my (%d); for my $f (@have) { my ($e) = $f =~ /((?:\.(?:gz|bz2))?)$/; my $x = "data of $f\n"; $d{$f} = $x; put("$w/s/$f", $e eq '.gz' ? gz($x) : $e eq '.bz2' ? bz($x) : $x); } $SCHED = sub { ($_[choose(scalar @_)], '0') }; my $r = bp(['-j', $j, '--noshuffle', 'compress', $type, '--', map { "$D/w/$_" } @args]); my %in; my $two = 0; for my $f (grep { !/\.$type$/ } @have) { (my $t = $f) =~ s/\.(gz|bz2)$//; $two = 1 if $in{$t}++; } my %over = map { my $t = $_; "$t.$type" => 1 } keys %in;
    for my $f (@have) { if (get("$w/s/$f")) { my ($e) = $f =~ /((?:\.(?:gz|bz2))?)$/; my ($x, $s) = unpacked("$w/s/$f", $e); next if $s == 1 && defined $x && $x eq $d{$f}; next if $over{$f}; fail_("kept:$f", "file $f no longer holds its data"); } next if $over{$f}; (my $t = $f) =~ s/\.(gz|bz2)$//; my ($x, $s) = unpacked("$w/s/$t.$type", ".$type"); req(defined $x && $s == 1 && $x eq $d{$f}, "data of $f is lost"); }
    if ($two) { req($r->{code} != 0 || $r->{err} ne '', "two sources for one destination were not reported"); } else { eq_($r->{code}, 0, "run ($r->{e})"); eq_($r->{err} =~ /failed/ ? 1 : 0, 0, "failures reported: $r->{err}"); for my $f (keys %over) { my ($x, $s) = unpacked("$w/s/$f", ".$type"); req($s && $x =~ /^data of/, "$f not made"); } for my $f (grep { !/\.$type$/ } @have) { req(!-e "$w/s/$f", "$f still there"); } } outcome("@have $r->{code}"); state("@have $form $j"); note("%s", "@have"); }
# user commands
sub makes { my $n = 1 + choose(2); my $cmds = 1 + choose(2); my $bad = choose($cmds + 1); my $old = choose(2); my $mode = pick(['run', 'dry', 'print', 'dirs']); my $make = sub { my $w = work(); for my $i (1 .. $n) { put("$w/s/$i.in", "input $i"); } if ($old) { put("$w/s/1.out", 'old'); utime 1e9, 1e9, "$w/s/1.out"; } }; my @c = map { my $f = $_ == $bad ? '; exit 3' : ''; $_ == 1 && $cmds == 1 ? "command=(printf %s 'made '; cat \$<) > \$@" . $f : $_ == 1 ? "command=cat \$< > \$TMP/half; printf par > \$@" . $f : "command=(printf %s 'made '; cat \$TMP/half) > \$@" . $f } 1 .. $cmds;
    my $args = sub { ['-j', 1 + ($n > 1), '--noshuffle', ($mode eq 'dry' ? '-n' : ()), '--', 'make', 'transform=s/\.in$/.out/', @c, ($mode eq 'print' ? 'printcmd' : ()), ($mode eq 'dirs' ? 'unexpanded-dirs' : ()), '--', $mode eq 'dirs' ? map({ "$D/w/s/$_.in" } 1 .. $n) : "$D/w/s"] }; my $k = inject("m$n$cmds$bad$old$mode", $make, $args); my $m = $MODE || ''; my $r = bp($args->()); my $all = 1; for my $i (1 .. $n) { my $x = get("$D/w/s/$i.out"); my $c = "made input $i"; req(!defined $x || $x eq $c && !$bad || $old && $i == 1 && $x eq 'old', "destination holds '" . ($x // '') . "'"); $all = 0 unless defined $x && $x eq $c; eq_(get("$D/w/s/$i.in"), "input $i", "source"); }
    if ($mode eq 'dry') { req(!$all, "a dry run made something"); eq_($r->{code}, 0, "dry run"); eq_(join(' ', map { s{.*/}{}r } all("$D/w/s")), join(' ', sort((map { "$_.in" } 1 .. $n), $old ? '1.out' : ())), "files after a dry run"); for my $i (1 .. $n) { my @l = grep { m{/s/$i\.in} } split /\n/, $r->{out}; req(@l >= 2, "the dry run does not show the command for file $i"); } for my $l (split /\n/, $r->{out}) { req(!($l =~ m{/s/1\.} && $l =~ m{/s/2\.}), "a command mixes files: $l"); } }
    else { req($all || $r->{stop} || $r->{code} || $r->{err} ne '', "a failure was not reported"); req($all || $k || $bad, "not made without a fault ($r->{e}$r->{err})"); if (!$r->{stop} && !$k) { my @t = glob("/tmp/bp.make.tmp.*"); @t = grep { (stat $_)[4] == $< && -M $_ < 1 && 0 } @t; } $K = undef; my $r2 = bp($args->()); if (!$bad) { eq_($r2->{code}, 0, "running again"); for my $i (1 .. $n) { eq_(get("$D/w/s/$i.out"), "made input $i", "destination after running again"); } } }
    for my $t (glob("/tmp/bp.make.tmp.*")) { my ($p) = $t =~ /(\d+)$/; next if CORE::kill(0, $p) || $!{EPERM}; my @s = stat $t; File::Path::remove_tree($t) if @s && $s[4] == $<; } outcome("$all$r->{code}"); state("$n$cmds$bad$old$mode$k$m"); note("%s %d", $mode, $k); }
# a list of commands
sub jobs { my $x = choose(2); my @lines; my @kinds = ('echo out of LINE', 'echo part of LINE; exit 4', '# comment', '#define WORD value', 'echo WORD LINE', 'kill -9 $$'); my $n = 1 + choose(2); for my $i (1 .. $n) { my $l = pick(\@kinds); $l =~ s/LINE/$i/g; push @lines, $l; } my @done = map { choose(2) } @lines; prune() if $x && "@done" =~ /1/; my $print = choose(2); my $maxj = pick([undef, 5, 12]); prune() if defined $maxj && ($print || $n > 1 && !thorough()) || $n > 1 && !thorough() && $print && $done[0]; my $fmt = defined $maxj ? ($maxj > 9 ? '%02d' : '%d') : '%03d'; my $name = sub { sprintf $fmt, $_[0] };
    my $make = sub { my $w = work(); put("$w/jobs", join('', map { "$_\n" } @lines)); for (1 .. $n) { put("$w/o/" . $name->($_), "done before") if $done[$_ - 1]; } }; my $args = sub { ['-j', 2, '--noshuffle', 'jobsfile', ($print ? 'printcmd' : ()), (defined $maxj ? "maxjobs=$maxj" : ()), '--', "$D/w/jobs", "$D/w/o"] }; my $k = inject("j@lines@done$print" . ($maxj || ''), $make, $args); my $m = $MODE || ''; $SCHED = sub { ($_[choose(scalar @_)], '0') }; my $r = bp($args->()); my %def; my @want; for my $i (1 .. $n) { my $l = $lines[$i - 1]; if ($l =~ /^#define/) { $def{WORD} = 'value'; push @want, undef; next; } if ($l =~ /^#/) { push @want, undef; next; } $l =~ s/\bWORD\b/value/ if $def{WORD}; push @want, $l =~ /^echo (out of \d+|\w+ \d+)$/ ? "$1\n" : ''; }
    my $look = sub { my ($full, $what) = @_; my $ok = 1; for my $i (1 .. $n) { my $y = get("$D/w/o/" . $name->($i)); my $wt = $want[$i - 1]; if ($done[$i - 1]) { eq_($y, 'done before', "$what: an earlier output"); next; } if (!defined $wt || $wt eq '') { eq_($y, undef, "$what: output of a job that failed or a comment"); $ok = 0 if defined $wt; next; } if (defined $y) { my $z = $y; if ($print) { req($z =~ s/^command: [^\n]*\n//, "$what: command not shown"); } eq_($z, $wt, "$what: output of line $i"); } elsif ($full) { fail_("missing", "$what: no output of line $i"); } else { $ok = 0; } } return $ok; };
    my $ok = $look->(!$k, 'run'); req($r->{err} eq '', "a failure was reported though every job worked: $r->{err}") if $ok && !$k && !grep { /exit 4|kill/ } @lines; req($ok || $r->{stop} || $r->{code} || $r->{err} ne '', "a failure was not reported"); $K = undef; bp($args->()); $look->(1, 'running again'); outcome("$ok$r->{code}"); state("@lines@done$k$m"); note("%s", join ' / ', @lines); }
# checksums
sub sums { my $ext = pick(['', '.gz', '.bz2']); my @d = @{ pick([[], ['md5'], ['sha1', 'md5']]) }; my $also = choose(2); my $base = choose(2); my $fault = choose(3); my $x = fix()->{$ext}; my $name = pick(['f', 'a b', "it's"]); my $old = choose(2); prune() if $fault && ($name ne 'f' || $base); if ($fault == 1) { prune() unless $ext && $also; $x = substr($x, 0, choose(length $x)); } my $w = work(); put("$w/s/$name$ext", $x); my $p = "$w/s/$name$ext"; put("$p.checksum", 'older') if $old; my ($good, $sound) = unpacked($p, $ext); my $nm = $base ? $name : "$w/s/$name"; my %k = map { $_ => 1 } @d; $k{sha1} = 1 unless @d; require Digest::SHA; my $sum = sub { my ($t, $f) = @_; join '', map { $_ . ' ' . ($_ eq 'md5' ? md5_hex($t) : Digest::SHA::sha1_hex($t)) . " $f\n" } sort keys %k; }; my $want = $sum->($x, "$nm$ext"); $want .= $sum->($good, $nm) if $also && $ext && $sound; if ($fault == 2) { $LIMIT = choose(thorough() ? length($want) + 2 : 60) * (thorough() ? 1 : 6); } elsif (!$fault) { }
    my $args = ['-j', 1, 'checksum', @d, ($also ? 'uncompressed-also' : ()), ($base ? 'basename' : ()), '--', "$w/s"]; my $r = bp($args); my $y = get("$p.checksum"); if ($old) { eq_($y, 'older', "checksum file already there"); } else { my $bad = $fault == 1 && !$sound || $fault == 2 && $LIMIT < length $want; if ($bad) { req(!defined $y, "checksums of unreadable data or only some of them: " . ($y // '')); req($r->{code} || $r->{err} ne '', "a failure was not reported"); } elsif ($sound != 2 || defined $y) { eq_($y, $want, "checksums ($r->{err})"); } $LIMIT = undef; my $r2 = bp($args); if ($sound == 1) { eq_(get("$p.checksum"), $want, "checksums after running again"); } } eq_(get($p), $x, "source"); outcome("$fault$ext"); state("$ext@d$also$base$fault$name"); note("%s", $nm); }
# archives
sub tars { my ($max) = @_; my $n = 1 + choose($max); my @size = map { pick([0, 300, 700]) } 1 .. $n; my $target = pick([1000, 999, 2200]); my $parts = choose(3); my $w; my $make = sub { $w = work(); mkdir "$w/out"; for my $i (1 .. $n) { put("$w/s/d" . ($i % 2) . "/f$i", chr(64 + $i) x $size[$i - 1]); utime 1e9, 1e9, "$w/s/d" . ($i % 2) . "/f$i"; } }; my $args = sub { ['-j', 1, '--noshuffle', 'tar', "target-size=$target", "destdir=$D/w/out", 'verbose=0', ($parts == 1 ? 'path-parts=2' : $parts == 2 ? 'strip-path=2' : ()), '--', "$D/w/s"] }; my $k = $n > (thorough() ? 3 : 2) ? do { $make->(); 0 } : inject("t$n@size$target$parts", $make, $args); my $m = $MODE || ''; my $r = bp($args->());
    my $look = sub { my ($full, $what) = @_; my %got; for my $t (glob("$D/w/out/*.tar")) { CORE::system("rm -rf '$D/x'; mkdir '$D/x'; tar -x -f '$t' -C '$D/x' 2>/dev/null") == 0 or fail_("broken", "$what: archive $t cannot be read"); my $sum = 0; for my $f (all("$D/x")) { my ($b) = $f =~ m{/f(\d+)$}; req(defined $b, "$what: strange name $f"); req(!$got{$b}++, "$what: file $b archived twice"); eq_(get($f), chr(64 + $b) x $size[$b - 1], "$what: contents of file $b"); $sum += $size[$b - 1] + 200; if ($parts == 1) { (my $rel = $f) =~ s{^\Q$D\E/x/}{}; eq_($rel, "d" . ($b % 2) . "/f$b", "$what: name in the archive"); } } req($sum <= $target, "$what: archive of $sum where $target are allowed"); } my $all = keys %got == $n; req($all || !$full, "$what: only files " . join(',', sort keys %got) . " of $n are archived ($r->{e} $r->{err})"); return $all; };
    my $all = $look->(!$k, 'run'); req($all || $r->{stop} || $r->{code} || $r->{err} ne '', "a failure was not reported"); $K = undef; if ($k) { bp($args->()); $look->(1, 'running again'); } for my $t (glob("/tmp/batch-parallel.tar.*")) { my ($p) = $t =~ /(\d+)$/; my @s = stat $t; CORE::unlink($t) if @s && $s[4] == $< && !CORE::kill(0, $p) && !$!{EPERM}; } outcome("$all"); state("@size$target$parts$k$m"); note("%s into %d", "@size", $target); }
sub configs { common(); my $x = thorough();
    config("partition", sub { partition($x ? 20 : 9) }, "number of items, every group size, limit on groups, job width and array limit, both batch systems; every index run");
    config("submission", \&submitfail, "failed and dry submissions, no batch system");
    config("local", sub { locals(3, '0', '1', 'k', 'd') }, "every order in which children end, each with every kind of end");
    config("local_more", sub { locals($x ? 5 : 4, '0', '1') }, "more items");
    config("shuffle", sub { shuffles($x ? 6 : 5) }, "every sequence of random numbers");
    config("outputs", \&outputs, "stopped or failing at every step of making each output, then run again");
    config("damaged", \&damaged, "compressing files cut at every byte and with bits changed in every byte");
    config("inner", \&inner, "a damaged file inside a sound compressed one");
    config("limited", \&limited, "no room at every length of the output");
    config("stopped", \&stopped, "compression stopped or failing at every step");
    config("names", \&names, "file names with every special character");
    config("several", \&several, "sets of sources with shared destinations, overlapping arguments");
    config("make", \&makes, "user commands failing at each, stopped at every step, dry runs");
    config("jobs", \&jobs, "lists of commands, outputs there before, stopped at every step");
    config("checksum", \&sums, "checksums, damaged input at every length, no room");
    config("tar", sub { tars($x ? 5 : 4) }, "grouping into archives by size, stopped at every step"); }
run_main();
