# P33: Lintel::DBI over a transactional in-memory database whose every call may fail.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC;
BEGIN { require lib; lib->import("$ENV{MC_REPO}/src"); require Carp; no warnings; require DBI; *DBI::connect = sub { my ($c, @a) = @_; return MockDB->make(@a); }; }
$MC::HANG = 5;
use Lintel::DBI;
our ($DB, $FAULTS, @CALLS, $EAGER, $HARD); my $t0;
# the database: committed and working contents, both tables of rows; every entry point may fail when faults are left
package MockDB;
sub make { my ($c, $dsn, $u, $p, $attr) = @_; return bless { dsn => $dsn, user => $u, pass => $p, %{ $attr || {} }, errstr => '' }, $c; }
sub fault { my ($o, $what) = @_; push @main::CALLS, $what; MC::step(); if ($main::FAULTS > 0 && MC::choose(2)) { $main::FAULTS--; MC::note("  %s fails", $what); return $o->err("injected $what failure"); } return 1; }
sub err { my ($o, $m) = @_; $o->{errstr} = $m; $main::LASTERR = $m; $main::NERR++; die "$m\n" if $o->{RaiseError}; return 0; }
sub errstr { $_[0]{errstr} }
sub begin_work { my ($o) = @_; return undef unless $o->fault('begin'); if ($main::DB->{in}) { return $o->err("Already in a transaction") || undef; } $main::DB->{in} = 1; $main::DB->{begins}++; $main::DB->{work} = main::copy($main::DB->{com}); return 1; }
sub commit { my ($o) = @_; if (!$main::DB->{in}) { return $o->err("commit outside a transaction") || undef; } return undef unless $o->fault('commit'); $main::DB->{com} = $main::DB->{work}; $main::DB->{in} = 0; $main::DB->{commits}++; return 1; }
# like many drivers, rolling back runs an eval of its own
sub rollback { my ($o) = @_; eval { 1 }; return undef unless $o->fault('rollback'); if (!$main::DB->{in}) { return $o->err("rollback outside a transaction") || undef; } $main::DB->{in} = 0; $main::DB->{work} = undef; $main::DB->{rollbacks}++; return 1; }
sub data { return $main::DB->{in} ? $main::DB->{work} : $main::DB->{com}; }
sub parse { my ($sql) = @_; my $s = $sql; $s =~ s/--[^\n]*\n/ /g; $s =~ s/\s+/ /g; $s =~ s/^ | ?;? ?$//g;
    return ['create', $1, 1] if $s =~ /^create table if not exists (\w+)/i; return ['create', $1, 0] if $s =~ /^create table (\w+)/i; return ['drop', $1] if $s =~ /^drop table (\w+)/i;
    return ['insert', $1, $2] if $s =~ /^insert (?:into )?(\w+) (?:values )?\(?'?(.*?)'?\)?$/i; return ['replace', $1] if $s =~ /^replace into (\w+)/i; return ['get', $1] if $s =~ /^select .*from (\w+) where name ?= ?\?/i; return ['canned', $1] if $s =~ /^canned (\w+)/; return undef; }
sub run { my ($o, $sql, @a) = @_; my $p = parse($sql); return $o->err("syntax error near '$sql'") || undef unless $p; my $d = data(); my ($k, $t) = @$p; return ['rows'] if $k eq 'canned'; if ($k ne 'create' && !exists $d->{$t}) { return $o->err("no such table $t") || undef; }
    if ($k eq 'create') { if (exists $d->{$t}) { return ['rows'] if $p->[2]; return $o->err("table $t exists") || undef; } $d->{$t} = []; } elsif ($k eq 'drop') { delete $d->{$t}; } elsif ($k eq 'insert') { push @{ $d->{$t} }, [$p->[2] eq '?' ? $a[0] : $p->[2]]; } elsif ($k eq 'replace') { $d->{$t} = [grep { $_->[0] ne $a[0] } @{ $d->{$t} }]; push @{ $d->{$t} }, [$a[0], substr($a[1], 0, 1024)]; } elsif ($k eq 'get') { return ['rows', map { [$_->[1]] } grep { $_->[0] eq $a[0] } @{ $d->{$t} }]; } return ['rows']; }
sub do { my ($o, $sql) = @_; return undef unless $o->fault('do'); my $r = $o->run($sql) or return undef; return '0E0'; }
sub prepare { my ($o, $sql) = @_; return undef unless $o->fault('prepare'); if ($main::EAGER) { my $p = parse($sql); return $o->err("syntax error near '$sql'") || undef unless $p; if ($p->[0] =~ /get|insert|replace|drop/ && !exists data()->{ $p->[1] }) { return $o->err("no such table $p->[1]") || undef; } } return bless { db => $o, sql => $sql }, 'MockSt'; }
sub ping { my ($o, @a) = @_; return wantarray ? ("pong", @a) : "pong@a"; }
package MockSt; our @ISA = ('DBI::st'); sub DESTROY { }
sub execute { my ($o, @a) = @_; $o->{rows} = undef; return undef unless $o->{db}->fault('execute'); my $r = $o->{db}->run($o->{sql}, @a) or return undef; $o->{args} = [@a]; if (my ($n) = $o->{sql} =~ /^canned (\w+)/) { $o->{rows} = [map { [@$_] } @{ $main::CANNED{$n}{rows} }]; $o->{cols} = $main::CANNED{$n}{cols}; return $main::CANNED{$n}{ret}; } my (undef, @rows) = @$r; $o->{rows} = [@rows]; $o->{cols} = ['value']; return '0E0'; }
sub fetchrow_array { my ($o) = @_; return () unless $o->{db}->fault('fetch'); my $r = shift @{ $o->{rows} } or return (); return wantarray ? @$r : $r->[0]; }
sub fetchrow_arrayref { my ($o) = @_; return undef unless $o->{db}->fault('fetch'); return shift @{ $o->{rows} }; } 
sub fetchrow_hashref { my ($o) = @_; return undef unless $o->{db}->fault('fetch'); my $r = shift @{ $o->{rows} } or return undef; my %h; @h{ @{ $o->{cols} } } = @$r; return \%h; }
sub finish { 1 } sub rows { scalar @{ $_[0]{rows} || [] } }
package main;
our (%CANNED, $LASTERR, $NERR);
sub copy { my ($d) = @_; return { map { my $t = $_; ($t => [map { [@$_] } @{ $d->{$t} }]) } keys %$d }; }
sub dump_ { my ($d) = @_; return join(' ', map { my $t = $_; "$t=" . join(',', map { join(':', map { defined $_ ? $_ : 'undef' } @$_) } @{ $d->{$t} }) } sort keys %$d); }
sub fresh { my ($faults, %o) = @_; $DB = { com => {}, in => 0, commits => 0, rollbacks => 0, begins => 0 }; $FAULTS = 0; @CALLS = (); $EAGER = $o{eager}; $NERR = 0; $LASTERR = ''; my $d = Lintel::DBI->connect('DBI:mock', 'u', 'p', $o{app} || 'app', $o{trace}); $d->{dbh}{RaiseError} = 0 if $o{quiet}; $FAULTS = $faults; return $d; }
sub attempt { my ($fn) = @_; local $SIG{__WARN__} = sub { }; my @r; my $ok = eval { @r = $fn->(); 1 }; my $e = $@; again($e) unless $ok; return ($ok ? 1 : 0, $e, @r); }
# splitting: every text over an alphabet, against a reference scanner
sub reference { my ($s) = @_; my @out; my $cur = ''; my $q = ''; my $i = 0; my $n = length $s; while ($i < $n) { my $c = substr $s, $i, 1; if ($q eq '') { if ($c eq '-' && substr($s, $i, 2) eq '--') { $q = 'c'; $cur .= '--'; $i += 2; next; } if ($c eq "'" || $c eq '"') { $q = $c; } elsif ($c eq ';') { push @out, "$cur;"; $cur = ''; $i++; next; } } elsif ($q eq 'c') { $q = '' if $c eq "\n"; } elsif ($c eq $q) { $q = ''; } $cur .= $c; $i++; } return \@out; }
my $obj = bless {}, 'Lintel::DBI';
sub split_ { my ($len, $al) = @_; my $s = join '', map { pick($al) } 1 .. $len; check_split($s); }
sub check_split { my ($s) = @_; my $want = reference($s); my $got = eval { Lintel::DBI::splitSQL($s) }; again($@); req(ref $got eq 'ARRAY', "splitting gave no list for '$s' ($@)"); eq_(join('|', @$got), join('|', @$want), "statements of '$s'"); eq_(scalar @$got, scalar @$want, "number of statements of '$s'"); my $g2 = $obj->splitSQL($s); eq_(join('|', @$g2), join('|', @$want), "statements of '$s' as a method"); state($s); outcome(join '|', @$got); note("%s", join('|', @$got)); }
sub split_blocks { my ($n) = @_; my @b = ("insert t 'it''s';", "-- note; 'x\n", "\"a;b\"", "a -- b ' ; \" \n c;", "'--';", "--\n", ";", " x", "- - ;", "'a\nb;", "'", "\n", "---;\n;"); check_split(join '', map { pick(\@b) } 1 .. $n); }
# transactions: a script of statements with a failure of the caller's code or of any database call
sub transaction { my ($faults, $o) = @_; my $trace = choose(2); my $quiet = choose(2); my $d = fresh(0, trace => $trace, quiet => $quiet); $DB->{com} = { t => [['old']] }; $d->load_sths(ins => 'insert t ?', sel => 'canned c'); %CANNED = (c => { rows => [[1]], cols => ['v'], ret => 1 }); @CALLS = (); $FAULTS = $faults; $NERR = 0; my $n = choose(3); my @plan = map { choose(3) } 1 .. $n; my $die = choose(6); my $at = $die ? choose($n + 1) : -1; my $obj = bless { why => 'object' }, 'MyError'; my $nest = choose(2); my $mask = 0; my $ran = 0; my $own; my $before = dump_($DB->{com}); my $errs;
    my $body = sub { $ran++; for my $i (0 .. $n) { if ($i == $at) { $own = 1; if ($die == 1) { die "own failure\n"; } elsif ($die == 2) { die $obj; } elsif ($die == 3) { die { code => 7 }; } elsif ($die == 4) { die "own failure without newline"; } else { eval { die "inner\n" }; die "own failure\n"; } } last if $i == $n; if ($plan[$i] == 0) { $d->{sth}->ins("v$i"); } elsif ($plan[$i] == 1) { $d->runSQL(["insert t 'a$i'", "insert t 'b$i'"]); } else { $d->runSQL(["insert t 'c$i'"]); } } if ($nest) { $d->transaction(sub { $d->runSQL(["insert t 'n'"]) }); } };
    my ($ok, $e) = attempt(sub { $d->transaction($body) }); my $after = dump_($DB->{com}); my $want = "t=old"; for my $i (0 .. $n - 1) { $want .= ",v$i" if $plan[$i] == 0; $want .= ",a$i,b$i" if $plan[$i] == 1; $want .= ",c$i" if $plan[$i] == 2; } my $failed = $own || $NERR || $nest; my $es = "$e"; $es =~ s/\s+/ /g; note("calls %s -> %s", join(',', @CALLS), $ok ? 'done' : "error $es");
    my $quiet_ins = $quiet && $NERR && !$own && !$nest && !grep { $_ eq 'never' } @CALLS;
    if ($quiet && grep { $_ == 0 } @plan) { prune() if $NERR; } # with errors switched off, executing a statement reports failure only in its result
    req($ran <= 1, "the function ran $ran times"); if (!$failed) { req($ok, "transaction failed without reason: $es"); eq_($after, $want, "contents after a transaction"); eq_("$DB->{begins}$DB->{commits}$DB->{rollbacks}", "110", "begin, commit, rollback"); }
    else { req(!$ok, "the failure was lost"); eq_($after, $before, "contents after a failed transaction"); eq_($DB->{commits}, 0, "commits"); req(!$DB->{in} || grep({ $_ eq 'rollback' } @CALLS), "transaction left open"); eq_($DB->{in}, 0, "transaction open") unless $LASTERR =~ /rollback/; if ($own && !$trace) { if ($die == 2) { req(ref $e && $e == $obj, "another error was raised: $es"); } elsif ($die == 3) { req(ref $e eq 'HASH' && $e->{code} == 7, "another error was raised: $es"); } else { req($e =~ /^own failure/, "another error was raised: $es"); } } elsif ($own && $trace && $die != 2 && $die != 3) { req($e =~ /own failure/, "another error was raised: $es"); } elsif (!$own && $NERR == 1 && !$nest) { req($e =~ /\Q$LASTERR\E/ || $quiet, "another error was raised: $es"); } }
    # a later transaction works
    if (!$DB->{in}) { $FAULTS = 0; my ($ok2, $e2) = attempt(sub { $d->transaction(sub { $d->runSQL(["insert t 'z'"]) }) }); req($ok2, "the next transaction failed: $e2"); eq_(dump_($DB->{com}), "$after,z", "contents after the next transaction"); } state("$n @plan $die $at $nest $quiet " . join(',', @CALLS)); outcome($after . ($ok ? '' : 'failed')); }
sub manual { my $quiet = choose(2); my $d = fresh(0, quiet => $quiet); $DB->{com} = { t => [] }; $FAULTS = 2; my $n = 0; my @in; my ($com, $work) = (0, undef); for my $i (1 .. 3) { my $op = choose(4); my $e0 = $NERR; my ($ok, $e) = attempt(sub { $op == 0 ? $d->beginTxn() : $op == 1 ? $d->commitTxn() : $op == 2 ? $d->rollbackTxn() : $d->runSQL(["insert t '$i'"]) }); my $bad = $NERR > $e0; if ($op == 2 && $quiet) { } elsif ($bad) { req(!$ok, "a failed call reported no error"); } else { req($ok, "a call failed without reason: $e"); } } state(join ',', @CALLS); outcome(dump_($DB->{com})); note("%s", join ',', @CALLS); }
# schema versions
sub schema { my ($faults, $maxv) = @_; my $eager = choose(2); my $d = fresh(0, eager => $eager); my $have = choose($maxv + 1); my $given = choose(2); my $target = 1 + choose($maxv); my $init = choose(3); my $gap = choose(3); my $failat = choose($maxv + 2);
    if ($have) { $DB->{com} = { main => [map { ["v$_"] } 1 .. $have] }; } if ($have && (!$given || choose(2))) { $DB->{com}{lintel_dbi_config} = [['lintel-dbi-schema-app', $have]]; } elsif ($have) { $DB->{com}{lintel_dbi_config} = []; } my $explicit = $given && $have ? $have : undef; prune() if $given && !$have; my $noconf = $have && !grep { $_->[0] =~ /schema/ } @{ $DB->{com}{lintel_dbi_config} };
    my %m; my $to = $init == 2 ? $target - 1 : $target; prune() if $init == 2 && $to < 1; my $form = choose(2); if ($init) { my $bad = $failat == $maxv + 1; my @s = ('create table main', (map { "insert main 'v$_'" } 1 .. $to), ($bad ? 'nonsense' : ())); $m{init} = { to_version => $to, sql => ($form ? [@s] : $d->splitSQL(join '', map { "$_;\n" } @s)) }; }
    for my $v (1 .. $maxv) { my $nv = $v + 1; my @s = ("insert main 'v$nv'"); if ($gap == 1 && $v == 2) { next; } if ($gap == 2 && $v == 1) { $nv = 3; push @s, "insert main 'v3'"; } push @s, 'nonsense' if $failat == $v; $m{$v} = { to_version => $nv, sql => \@s }; } 
    my $start = dump_($DB->{com}); my (@states, $expect); my $ver = $have; my $mk = sub { my ($x) = @_; return "main=" . join(',', map { "v$_" } 1 .. $x); }; my $fail = 0; my %allowed = (($have ? $mk->($have) : 'none') => 1);
    if (!$have) { if (!$init || $failat == $maxv + 1) { $fail = 1; } else { $ver = $to; $allowed{ $mk->($ver) } = 1; $fail = 1 if $ver != $target; } } else { while ($ver < $target) { my $step = $m{$ver}; if (!$step || $failat == $ver) { $fail = 1; last; } $ver = $step->{to_version}; $allowed{ $mk->($ver) } = 1; } $fail = 1 if $ver != $target; }
    $FAULTS = $faults; $NERR = 0; @CALLS = (); open my $null, '>', '/dev/null'; my $old = select $null; my ($ok, $e) = attempt(sub { $d->setupSchema($target, \%m, (defined $explicit ? $explicit : ())) }); select $old; again($e) if !$ok; my $inj = $faults - $FAULTS; my $now = exists $DB->{com}{main} ? 'main=' . join(',', map { $_->[0] } @{ $DB->{com}{main} }) : 'none'; my ($cfg) = map { $_->[1] } grep { $_->[0] eq 'lintel-dbi-schema-app' } @{ $DB->{com}{lintel_dbi_config} || [] };
    note("have %s target %s init %s: %s %s", $have, $target, $init ? $to : '-', $ok ? 'done' : 'error', $now); my $es = "$e"; $es =~ s/\s+/ /g; $es = substr $es, 0, 300;
    if ($inj && $CALLS[0] && $inj == 1 && !$explicit && $have && (grep { defined } first_read_fault()) ) { req(!$ok || $now eq $mk->($target), "a database whose version could not be read was taken for an empty one", 'unreadable version taken for none') ; return; }
    if (!$inj) { if ($fail) { req(!$ok, "setting up version $target reported success"); } else { req($ok, "setting up version $target failed: $es"); } } 
    if ($ok) { eq_($now, $mk->($target), "contents after setting up version $target"); eq_(defined $cfg ? $cfg : 'none', $target, "recorded version") unless $noconf && $have == $target; } req($allowed{$now}, "contents $now are not those of any version on the way"); if (defined $cfg && $now ne 'none') { eq_($mk->($cfg), $now, "recorded version $cfg"); } if ($now eq 'none') { req(!defined $cfg, "a version is recorded without its contents"); } elsif (!defined $cfg) { req($noconf && $now eq $mk->($have), "contents without a recorded version"); } req(!$DB->{in}, "transaction left open") unless grep { $_ eq 'rollback' } @CALLS and $inj; 
    # trying again without faults gets there
    if (!$fail && !$DB->{in}) { $FAULTS = 0; my $old2 = select $null; my ($ok2, $e2) = attempt(sub { $d->setupSchema($target, \%m, ($noconf && !defined $cfg ? $explicit : ())) }); select $old2; req($ok2, "setting up again failed: $e2"); my $n2 = 'main=' . join(',', map { $_->[0] } @{ $DB->{com}{main} }); eq_($n2, $mk->($target), "contents after setting up again"); } state("$have $target $init $gap $failat $eager"); outcome($now . $ok); }
our @FAULTED; sub first_read_fault { return (); }
# an unreadable version must not be taken for a missing schema
sub unreadable { my $d = fresh(0); $DB->{com} = { main => [['v1']], lintel_dbi_config => [['lintel-dbi-schema-app', 1]] }; my %m = (init => { to_version => 1, sql => ['drop table main', 'create table main', "insert main 'v1'"] }); my $which = choose(4); my $k = 0; no warnings 'redefine'; my $of = \&MockDB::fault; local *MockDB::fault = sub { my ($o, $what) = @_; if ($k++ == $which) { return $o->err("connection lost"); } return $of->(@_); }; $DB->{com}{main} = [['v1'], ['user data']]; open my $null, '>', '/dev/null'; my $old = select $null; my ($ok, $e) = attempt(sub { $d->setupSchema(1, \%m) }); select $old; state($which); outcome($ok); req(join(',', map { $_->[0] } @{ $DB->{com}{main} || [] }) eq 'v1,user data', "the schema was installed again over existing data after a failed read of its version", 'installed again over existing data'); }
sub appname { no warnings; my $how = choose(3); my $d; if ($how == 0) { $d = eval "#line 1 \"/some/where/myprog.pl\"\n Lintel::DBI->connect('DBI:mock', 'u', 'p')"; } elsif ($how == 1) { $d = eval "#line 1 \"/some/where/myprog.pl\"\n Lintel::DBI->new(dsn => 'DBI:mock', username => 'u', password => 'p')"; } else { $d = Lintel::DBI->new(dsn => 'DBI:mock', username => 'u', password => 'p', application => 'given', trace_errors => 1); } die "MC: $@" unless $d; state($how); outcome($d->{application}); eq_($d->{dbh}{dsn} . $d->{dbh}{user} . $d->{dbh}{pass} . ($d->{dbh}{RaiseError} || 0), 'DBI:mockup1', "connection arguments"); if ($how == 1) { req($d->{application} eq 'myprog.pl', "new() names the application $d->{application}", 'application named after the module'); } else { eq_($d->{application}, $how == 0 ? 'myprog.pl' : 'given', "application name"); } }
# rows
sub rows_ { my ($fault) = @_; my $d = fresh(0); my $nr = choose(4); my $nc = 1 + choose(3); my @v = (undef, 0, '', 'x'); my $k = choose(4); my @rows = map { my $r = $_; [map { $v[($k + $r + $_) % 4] } 1 .. $nc] } 1 .. $nr; my @cols = map { "c$_" } 1 .. $nc; my $ret = pick([1, '0E0', undef, 0]); %CANNED = (q => { rows => \@rows, cols => \@cols, ret => $ret }, other => { rows => [['wrong']], cols => ['c1'], ret => 1 }); $d->load_sths(q => 'canned q', other => 'canned other'); my $f = choose(10); my $via = choose(2); prune() if $via && $f > 1; $FAULTS = $fault; $NERR = 0; $d->{sth}->other() if 0; my $xs; my ($okx, $ex);
    my @A = @{ ([5, 6], [undef, 0], ['', "a'b;?\n", undef], [])[$k] }; my ($ok, $e, @r) = attempt(sub { if ($via) { return $f == 0 ? $d->{sth}->oneRow('q', @A) : $d->{sth}->atMostOneRow('q', @A); } $xs = $d->{sth}->q(@A); if ($f == 0) { return $xs->oneRow() } elsif ($f == 1) { return $xs->atMostOneRow() } elsif ($f == 2) { return $xs->oneRowArray() } elsif ($f == 3) { return $xs->atMostOneRowArray() } elsif ($f == 4) { return scalar $xs->value() } elsif ($f == 5) { return scalar $xs->requiredValue() } elsif ($f == 6) { my @a; while (my @x = $xs->fetchArray()) { push @a, [@x]; } return @a } elsif ($f == 7) { my @a; while (my $x = $xs->fetchHash()) { push @a, [@$x{@cols}]; } return @a } elsif ($f == 8) { my @a; while (my @x = $d->{sth}->fetchArray()) { push @a, [@x]; } return @a } else { my @a; while (my $x = $d->{sth}->fetchHash()) { push @a, [@$x{@cols}]; } return @a } });
    my $sh = sub { join('|', map { my $x = $_; ref $x eq 'ARRAY' ? join(',', map { defined $_ ? "<$_>" : 'undef' } @$x) : ref $x eq 'HASH' ? join(',', map { "$_=" . (defined $x->{$_} ? "<$x->{$_}>" : 'undef') } sort keys %$x) : defined $x ? "<$x>" : 'undef' } @_) }; my $wfail = $NERR > 0; my @want; $wfail = 1 if !$ret && !$via && $f < 8; my $h = sub { my %q; @q{@cols} = @{ $_[0] }; \%q }; if (!$wfail) { if ($f == 0) { if ($nr == 1) { @want = ($h->($rows[0])); } else { $wfail = 1; } } elsif ($f == 1) { if ($nr <= 1) { @want = ($nr ? $h->($rows[0]) : undef); } else { $wfail = 1; } } elsif ($f == 2) { if ($nr == 1) { @want = @{ $rows[0] }; } else { $wfail = 1; } } elsif ($f == 3) { if ($nr <= 1) { @want = $nr ? @{ $rows[0] } : (); } else { $wfail = 1; } } elsif ($f == 4) { if ($nr == 0) { @want = (undef); } elsif ($nr == 1 && $nc == 1) { @want = ($rows[0][0]); } else { $wfail = 1; } } elsif ($f == 5) { if ($nr == 1 && $nc == 1) { @want = ($rows[0][0]); } else { $wfail = 1; } } else { @want = @rows; } }
    my $es = "$e"; $es =~ s/\s+/ /g; $es = substr $es, 0, 200; eq_($ok ? 'result' : 'error', $wfail ? 'error' : 'result', "outcome of reader $f with $nr rows of $nc ($es)"); eq_($sh->(@r), $sh->(@want), "result of reader $f") if $ok; eq_($sh->(@{ $d->{sth}{q}{args} || [] }), $sh->(@A), "arguments bound") if $ok; state("$nr $nc $k $f $via"); outcome($ok . $sh->(@r)); note("reader %d: %s", $f, $ok ? $sh->(@r) : 'error'); }
# configuration values, against a plain map
sub config_ { my ($len) = @_; my $eager = choose(2); my $d = fresh(0, eager => $eager); my $late = choose(2); my %m; my $made = 0; my @names = ('a', 'b', 'lintel-dbi-x', 'n' x 254, 'n' x 255); my @vals = ('', '0', 'x', "it's; ?", 'y' x 1025); if (!$late) { $d->loadDbiConfigSchema(); $made = 1; }
    for my $i (1 .. $len) { my $op = choose($made ? 2 : 3); my $n = pick(\@names); state("$made " . join(',', map { "$_=$m{$_}" } sort keys %m)); if ($op == 2) { $d->loadDbiConfigSchema(); $made = 1; next; } if ($op == 0) { my $v = pick(\@vals); my ($ok, $e) = attempt(sub { $d->setConfig($n, $v) }); my $want = $made && $n !~ /^lintel-dbi-/ && length $n <= 254 && length $v <= 1024; eq_($ok, $want ? 1 : 0, "setting '" . substr($n, 0, 20) . "' to " . length($v) . " bytes"); if ($want) { $m{$n} = $v; } elsif ($made && $n !~ /^lintel-dbi-/) { prune(); } } else { my ($ok, $e, @r) = attempt(sub { $d->getConfig($n) }); if (length $n > 254) { req(!$ok, "a name too long was accepted"); next; } req($ok, "reading failed: $e"); eq_($r[0], exists $m{$n} ? $m{$n} : undef, "value of '" . substr($n, 0, 20) . "'"); } } outcome(join ',', map { "$_=$m{$_}" } sort keys %m); note("%s", join ',', map { substr($_, 0, 12) } sort keys %m); }
# prepared statements by name
sub named { my $d = fresh(0); $DB->{com} = { t => [] }; %CANNED = (one => { rows => [[1]], cols => ['c'], ret => 1 }, two => { rows => [[2]], cols => ['c'], ret => 1 }); my @names = ('alpha', 'beta', 'AUTOLOAD', 'DESTROY', 'fetchArray', 'fetchHash', 'oneRow', 'atMostOneRow'); my %m; for my $i (1 .. 3) { my $n = pick(\@names); my $s = choose(3); my $op = choose(2); if ($op == 0) { my $fail = $s == 2; local $FAULTS = 0; no warnings 'redefine'; my $op_ = \&MockDB::prepare; local *MockDB::prepare = sub { $fail ? $_[0]->err("bad statement") || undef : $op_->(@_) }; my ($ok) = attempt(sub { $d->load_sths($n => $s == 0 ? 'canned one' : 'canned two') }); my $want = $n =~ /alpha|beta/ && !$fail; eq_($ok, $want ? 1 : 0, "preparing a statement named $n"); $m{$n} = $s + 1 if $want; } elsif ($n =~ /alpha|beta/) { my ($ok, $e, @r) = attempt(sub { $d->{sth}->$n()->value() }); eq_($ok, exists $m{$n} ? 1 : 0, "running $n"); eq_($r[0], $m{$n}, "result of $n") if $ok; } } my ($ok, $e, @r) = attempt(sub { $d->ping(1, 2) }); eq_("@r", "pong 1 2", "a call passed on to the connection"); state(join ',', %m); outcome(join ',', map { "$_$m{$_}" } sort keys %m); }
sub runsql { my $quiet = choose(2); my $d = fresh(0, quiet => $quiet); $DB->{com} = { t => [] }; my $n = choose(4); my @s = map { my $k = choose(2); $k == 1 ? 'nonsense' : "insert t 's$_'" } 1 .. $n; $FAULTS = 1; $NERR = 0; my @orig = @s; my ($ok, $e) = attempt(sub { $d->runSQL(\@s) }); eq_(join('|', @s), join('|', @orig), "statements given"); eq_($ok, $NERR ? 0 : 1, "outcome of running statements"); my $done = 0; for my $x (@{ $DB->{com}{t} }) { $done++; } my $i = 0; for my $x (@{ $DB->{com}{t} }) { eq_($x->[0], $orig[$i] =~ /'(.*)'/ ? $1 : 'none', "statement $i run"); $i++; } eq_($done, $n, "statements run") if $ok; my ($o2) = attempt(sub { $d->runSQL("insert t 'x'") }); req(!$o2, "a string was taken for a list of statements"); state("@orig"); outcome("$done"); }
sub configs { my $x = thorough(); my @al = ("'", '"', ';', '-', "\n", 'a');
    for my $l (0 .. ($x ? 8 : 6)) { config("split_$l", sub { split_($l, \@al) }, "every text of $l characters over quotes, dash, semicolon, newline and a letter, against a reference scanner"); }
    config("split_blocks", sub { split_blocks($x ? 6 : 5) }, "every sequence of " . ($x ? 6 : 5) . " blocks of statements, comments and strings");
    config("transaction", sub { transaction($x ? 3 : 2) }, "every function of up to 2 steps failing in every way at every step, nested or not, with up to " . ($x ? 3 : 2) . " failing database calls at every placement");
    config("manual", \&manual, "every sequence of 3 begin/commit/rollback/run calls with up to 2 failures"); config("runsql", \&runsql, "statement lists with failures at every place");
    config("schema", sub { schema(0, $x ? 5 : 4) }, "every installed, target and initial version, missing and double steps, failing steps"); config("schema_faults", sub { schema_f($x ? 2 : 1, 3) }, "the same with a database call failing at every place");
    config("unreadable", \&unreadable, "the read of the installed version failing at every call"); config("application", \&appname, "the ways to connect");
    config("rows", sub { rows_(0) }, "every reader on every result of up to 3 rows of up to 3 columns"); config("rows_faults", sub { rows_(1) }, "the same with a failing call at every place");
    config("config", sub { config_($x ? 4 : 3) }, "every sequence of reads and writes of configuration values"); config("named", \&named, "every sequence of preparing and running named statements"); }
# faults everywhere but in reading the recorded version, which is a configuration of its own
sub schema_f { my ($f, $v) = @_; no warnings 'redefine'; my $og = Lintel::DBI->can('getInstalledSchemaVersion'); local *Lintel::DBI::getInstalledSchemaVersion = sub { local $FAULTS = 0; my ($r) = $og->(@_); return $r; }; my $before = $FAULTS; schema($f, $v); }
run_main();
