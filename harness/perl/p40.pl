# P40: Plot::Mercury's database helpers over a scripted database, key files, module reloading.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC;
our ($CONNECT, @CALLS, $PREP, @EXEC, $slept, $OWNER); our $scr; our $died;
BEGIN { unless (defined $ENV{PERL_HASH_SEED}) { $ENV{PERL_HASH_SEED} = 0; $ENV{PERL_PERTURB_KEYS} = 0; exec $^X, $0, @ARGV; die; } } # hash order decides what a stopped loop leaves behind
BEGIN { $ENV{HOME} = '/nonexistent'; delete $ENV{MERCURY_DSN}; require lib; lib->import("$ENV{MC_REPO}/src"); $INC{'DBI.pm'} = 1; $OWNER = $$; no warnings 'once'; *CORE::GLOBAL::sleep = sub { $main::slept++; return $_[0] }; }
package DBI; sub connect { my ($c, @a) = @_; push @main::CALLS, ['connect', map { defined $_ ? $_ : 'undef' } @a[0 .. 2]]; MC::step(); my $r = ref $main::CONNECT eq 'ARRAY' ? shift @{$main::CONNECT} : $main::CONNECT; $r = 'ok' unless defined $r; die "cannot reach the server\n" if $r eq 'die'; return undef if $r eq 'undef'; return bless {}, 'FakeDb'; } our $errstr = 'no server'; sub errstr { $errstr }
package FakeDb; sub quote { my ($o, $s) = @_; push @main::CALLS, ['quote', $s]; $s =~ s/'/''/g; return "'$s'"; } sub errstr { $main::ERRSTR } sub disconnect { push @main::CALLS, ['disconnect']; 1 } sub DESTROY { }
sub prepare { my ($o, $sql) = @_; push @main::CALLS, ['prepare', $sql]; MC::step(); my $p = $main::PREP; die "prepare refused\n" if defined $p && $p eq 'die'; return undef if defined $p && $p eq 'undef'; return bless { sql => $sql, %{ main::answer($sql) } }, 'FakeSt'; }
package FakeSt; sub execute { my ($o) = @_; push @main::CALLS, ['execute', $o->{sql}]; MC::step(); if (defined $o->{die}) { $main::ERRSTR = $o->{die}; die "$o->{die}\n"; } $main::ERRSTR = 'server says no'; return undef if $o->{fail}; my $n = @{ $o->{data} || [] }; $n = $o->{rows} if defined $o->{rows}; return $n == 0 ? '0E0' : $n; }
sub rows { my ($o) = @_; return defined $o->{rows} ? $o->{rows} : scalar @{ $o->{data} || [] }; } sub fetchrow_array { my ($o) = @_; my $r = shift @{ $o->{data} } or return (); return @$r; } sub finish { 1 } sub errstr { 'server says no' } sub DESTROY { }
package main;
our $ERRSTR = 'server says no'; our $ANSWER = sub { return { rows => 0 } }; sub answer { my ($sql) = @_; return $ANSWER->($sql); }
BEGIN { $SIG{__WARN__} = sub { }; require Plot::Mercury; Plot::Mercury->import(); }
sub anew { delete $INC{'Plot/Mercury.pm'}; no warnings; require Plot::Mercury; Plot::Mercury->import(); fresh(); } # what the module remembers is forgotten
sub fresh { @CALLS = (); $PREP = undef; $CONNECT = 'ok'; $slept = 0; no warnings 'once'; $Plot::Mercury::dbh = undef; $! = 0; }
sub attempt { my ($f) = @_; my @r; my $ok = eval { @r = $f->(); 1 }; my $e = $@; again($e) unless $ok; $died = $ok ? undef : $e; return @r; }
sub calls { my ($k) = @_; return grep { $_->[0] eq $k } @CALLS; }
END { if (defined $OWNER && $OWNER == $$) { for my $d (glob("/tmp/mcp40.$OWNER.*")) { for my $s (glob("$d/*")) { unlink glob("$s/*"); rmdir $s; unlink $s; } rmdir $d; } } }
sub scratch { $scr = "/tmp/mcp40.$OWNER.$$"; mkdir $scr unless -d $scr; return $scr; }
sub put { my ($f, $t) = @_; open my $h, '>', $f or die "$f: $!"; print $h $t; close $h; }
# ---- key files
my @LINES = ('default DBI:mysql:a', 'default DBI:x user', 'default DBI:x user secret', 'default DBI:x user secret more', 'default mysql:a', 'default', "default \t DBI:y   user  \t", '# default DBI:z', 'xdefault DBI:w', 'a.b DBI:dot', 'axb DBI:letter', '', "default\tDBI:t", ' default DBI:s', 'default2 DBI:two', 'a+b DBI:plus u', 'default xDBI:z', 'DEFAULT DBI:upper');
sub dsn { fresh(); my $n = choose(thorough() ? 4 : 3); my @l = map { pick(\@LINES) } 1 .. $n; my $key = pick(['default', 'a.b', 'axb', 'a+b', 'none', 'def']); my $nl = $n ? choose(2) : 0; my $f = scratch() . "/keys"; put($f, join("\n", @l) . ($nl ? '' : $n ? "\n" : '')); my ($want, $bad);
    for my $l (@l) { next unless substr($l, 0, length $key) eq $key && substr($l, length $key) =~ /^\s+(\S.*?)\s*$/; my @b = split ' ', $1; $bad = 1 if @b > 3 || $b[0] !~ /^DBI:/; $want = \@b; last; }
    my @r = attempt(sub { Plot::Mercury::getDSNbykey($key, $f) }); my $lab = "key $key in '" . join('|', @l) . "'"; state($lab); step(); if ($bad) { req(defined $died, "$lab: an invalid line was accepted as " . join(' ', @r)); return; } req(!defined $died, "$lab: refused: " . ($died || '')); eq_(join(' ', @r), $want ? join(' ', @$want) : '', $lab); outcome("@r");
    eq_(join(' ', attempt(sub { Plot::Mercury::getDSNbykey($key, "$f.missing") })), '', "a missing key file"); unlink $f; }
# ---- one statement
sub statements { anew(); my $conn = choose(4); my ($prep, $exec, $rows) = ('ok', 'ok', 0); my $op = choose(9); if ($conn == 0) { Plot::Mercury->connectToDB('DBI:one', 'u', 'p'); @CALLS = (); } elsif ($conn == 2) { $CONNECT = 'undef'; } elsif ($conn == 3) { $CONNECT = 'die'; } my $noconn = $conn >= 2;
    if (!$noconn && $op) { $prep = pick(['ok', 'undef', 'die']); if ($prep eq 'ok' && $op > 1) { $exec = pick(['ok', 'undef', 'die']); $rows = choose(4) if $exec eq 'ok'; } } $PREP = $prep; my $sql = "select 'x' from t"; my @data = map { [$_, "r$_", undef] } 1 .. $rows;
    my $style = $op > 3 && $rows ? choose(2) : 0; $ANSWER = sub { return $exec eq 'undef' ? { fail => 1 } : $exec eq 'die' ? { die => 'exploded' } : $style ? { rows => $rows } : { data => [map { [@$_] } @data] } }; my $expect; my @r = attempt(sub { return $op == 0 ? sql_quote("it's") : $op == 1 ? sql_prepare($sql) : $op == 2 ? sql_exec($sql) : $op == 3 ? sql_unique_row($sql) : $op == 4 ? sql_command($sql) : sql_command($sql, $expect = (0, 1, 2, '*')[$op - 5]) });
    my $name = (qw(quote prepare exec unique_row command command0 command1 command2 command*))[$op]; my $lab = "$name, connection " . (qw(open made undefined dying))[$conn] . ", prepare $prep, execute $exec, $rows rows"; note($lab); state("$lab $style"); step();
    my $bad = $noconn || $prep ne 'ok' || $exec ne 'ok' || ($op == 3 && $rows != 1) || ($op == 4 && $rows) || ($op >= 5 && $op < 8 && $rows != $expect); eq_(defined $died ? 1 : 0, $bad ? 1 : 0, "$lab: failed (" . (defined $died ? $died : '') . ")"); eq_(scalar(calls('connect')), $conn ? 1 : 0, "$lab: connections made"); my $x = calls('execute'); eq_($x, $op >= 2 && !$noconn && $prep eq 'ok' ? 1 : 0, "$lab: executions"); req($_->[1] eq $sql, "$lab: another statement was sent: $_->[1]") for calls('prepare');
    if (!$bad) { if ($op == 0) { eq_($r[0], "'it''s'", $lab); } if ($op == 3) { eq_(join(',', map { defined $_ ? $_ : '-' } @r), '1,r1,-', "$lab: row"); } if ($op == 1 || $op == 2) { eq_(ref $r[0], 'FakeSt', $lab); } if ($op == 2) { my @got = $r[0]->fetchrow_array; eq_(join(',', map { defined $_ ? $_ : '-' } @got), $rows ? '1,r1,-' : '', "$lab: first row"); } } outcome(defined $died ? 'died' : 'fine'); }
# ---- connecting and reconnecting
sub connecting { anew(); my $d = choose(3); my $dsn = $d == 0 ? undef : $d == 1 ? 'DBI:given' : 'DBI:x y'; no warnings 'once'; local $Plot::Mercury::Default_DSN = choose(2) ? 'DBI:default' : undef; my $u = choose(2) ? 'u' : undef; $CONNECT = pick(['ok', 'undef', 'die']); my $twice = choose(2); attempt(sub { Plot::Mercury->connectToDB($dsn, $u, defined $u ? 'p' : undef) }); my $use = defined $dsn ? $dsn : $Plot::Mercury::Default_DSN; my $ok = defined $use && $CONNECT eq 'ok'; my $lab = "connect to " . (defined $dsn ? $dsn : '-') . " default " . (defined $Plot::Mercury::Default_DSN ? 'set' : 'unset') . " $CONNECT"; state("$lab $twice" . defined $u); step();
    eq_(defined $died ? 0 : 1, $ok ? 1 : 0, $lab); my @c = calls('connect'); eq_(scalar(@c), defined $use ? 1 : 0, "$lab: connections"); eq_(join('|', @{ $c[0] }[1 .. 3]), join('|', $use, map { defined $u ? $_ : 'undef' } 'u', 'p'), "$lab: parameters") if @c; if ($ok) { req($Plot::Mercury::dbh->{RaiseError}, "$lab: the handle does not raise errors"); if ($twice) { attempt(sub { Plot::Mercury->connectToDB('DBI:other') }); req(defined $died && $died =~ /Already connected/, "a second connection was accepted"); eq_(scalar(calls('connect')), 1, "connections made by a refused connect"); } } }
sub reconnecting { anew(); my $was = choose(2); my $state = choose(5); my $n = $state == 1 ? choose(thorough() ? 5 : 4) : 0; my $how = $n ? choose(2) : 0; my $u = choose(2); if ($was && choose(2)) { $CONNECT = 'undef'; attempt(sub { Plot::Mercury->connectToDB('DBI:unreachable', 'x', 'y') }); $CONNECT = 'ok'; } if ($was) { Plot::Mercury->connectToDB('DBI:one', $u ? ('me', 'pw') : ()); } my $old = $Plot::Mercury::dbh; @CALLS = (); $CONNECT = [(map { $how ? 'die' : 'undef' } 1 .. $n), 'ok']; my $k = 0; my $first = 1;
    $ANSWER = sub { my ($q) = @_; $k++; return { data => [[1]] } if $state == 0 || !$first; $first = 0; return $state == 1 ? { die => 'DBD: Lost connection to MySQL server during query' } : $state == 2 ? { die => 'syntax error' } : $state == 3 ? { data => [[7]] } : { fail => 1 }; }; my @r = attempt(sub { Plot::Mercury->reconnectToDB() }); my $lab = ($was ? '' : 'never connected, ') . "reconnect in state $state, $n failing attempts" . ($how ? ' that die' : ''); note($lab); state("$lab $u"); step();
    if (!$was) { req(defined $died, "$lab: accepted"); eq_(scalar(@CALLS), 0, "$lab: calls"); return; } if ($state <= 1) { req(!defined $died, "$lab: " . ($died || '')); eq_($r[0], 1, "$lab: result"); my @c = calls('connect'); eq_(scalar(@c), $state ? $n + 1 : 0, "$lab: connections tried"); eq_(join('|', @{$_}[1 .. 3]), $u ? 'DBI:one|me|pw' : 'DBI:one|undef|undef', "$lab: parameters") for @c; req(defined $Plot::Mercury::dbh, "$lab: no handle"); eq_($Plot::Mercury::dbh == $old ? 1 : 0, $state ? 0 : 1, "$lab: same handle"); eq_($slept >= $n ? 1 : 0, 1, "$lab: pauses between attempts"); eq_(scalar(calls('disconnect')), $state, "$lab: disconnects of the lost handle"); req($Plot::Mercury::dbh->{RaiseError}, "$lab: the new handle does not raise errors"); }
    else { req(defined $died, "$lab: accepted"); eq_(scalar(calls('connect')), 0, "$lab: connections"); } }
# ---- experiments
sub cols { my ($sql) = @_; my ($in) = $sql =~ /\((.*)\)\s*$/s or return (); my @c = (''); my $d = 0; my $q = 0; for my $ch (split //, $in) { $q = !$q if $ch eq "'"; $d++ if $ch eq '(' && !$q; $d-- if $ch eq ')' && !$q; if ($ch eq ',' && !$d && !$q) { push @c, ''; } else { $c[-1] .= $ch; } } s/^\s+|\s+$//g, s/\s+/ /g for @c; return @c; }
my @COLS = ([a => 'int'], [b2 => "enum('x','y')"], [infra_x => 'int'], ['c d' => 'int'], [status_ => 'decimal(3,1)'], ['my_infra_z' => 'int'], ['e;' => 'int'], ["f\n" => 'int'], [Infra_y => 'int']);
sub good_col { my ($k) = @_; return $k =~ /\A\w+\z/ && $k !~ /\Ainfra_/; }
sub creating { my ($kinds) = @_; fresh(); my $nin = choose(3); my $nout = choose(3); my %in = map { my $c = $COLS[choose($kinds)]; @$c } 1 .. $nin; my %out = map { my $c = $COLS[choose($kinds)]; @$c } 1 .. $nout; my $info = { name => "it's", inputs => {%in}, outputs => {%out} }; my $m = choose(4); delete $info->{name} if $m == 1; $info->{expid} = 4 if $m == 2; if ($m == 3) { $info->{author} = "o'me"; $info->{created} = '2001-02-03 04:05:06'; $info->{description} = "d'"; } my @extra = $m == 3 ? ('x1 int', 'x2 varchar(3)') : (); my $fault = $m == 0 || $m == 3 ? choose(7) : 0; my @sent; my $n = 0;
    my %fl = map { $_ => 1 } grep { good_col($_) || $_ eq "f\n" } (); $ANSWER = sub { my ($q) = @_; my $k = $q =~ /^\s*insert/i ? 'insert' : $q =~ /^\s*create/i ? 'create' : $q =~ /now\(\)/i ? 'now' : 'find'; push @sent, [$k, $q]; if ($fault == 1 && $k eq 'insert') { return { die => 'refused' } } if ($fault == 2 && $k eq 'insert') { return { rows => 0 } } if ($fault == 3 && $k eq 'find') { return { data => [[41], [42]] } } if ($fault == 4 && $k eq 'find') { return { data => [] } } if ($fault == 5 && $k eq 'create') { return { die => 'refused' } } if ($fault == 6 && $k eq 'now') { return { fail => 1 } } return $k eq 'insert' ? { rows => 1 } : $k eq 'create' ? { rows => 0 } : $k eq 'now' ? { data => [['1999-12-31 23:59:59']] } : { data => [[41]] }; };
    my $run = sub { my ($lab) = @_; my @ci = keys %in; my @co = keys %out; my $bad = !defined $info->{name} || defined $info->{expid} || !@ci || grep { !good_col($_) } @ci, @co; my %o = map { $_ => 1 } @co; $bad ||= grep { $o{$_} } @ci; my $nowfault = $fault == 6 && !defined $info->{created}; @sent = (); my ($id) = attempt(sub { Plot::Mercury->create_experiment($info, @extra) }); step(); my $isbad = $bad || ($fault && $fault < 6) || $nowfault; eq_(defined $died ? 1 : 0, $isbad ? 1 : 0, "$lab: refused (" . (defined $died ? $died : '') . ")"); my @w = grep { $_->[0] =~ /insert|create/ } @sent;
        if ($bad || $nowfault) { eq_(scalar(@w), 0, "$lab: statements that change the database"); } elsif ($fault && $fault < 5) { eq_(join(',', map { $_->[0] } @w), 'insert', "$lab: statements that change the database"); }
        if (!$isbad) { eq_($id, 41, "$lab: identifier"); eq_(join(',', map { $_->[0] } @w), 'insert,create', "$lab: statements that change the database"); my $au = defined $info->{author} ? $info->{author} : getpwuid($>); my $cr = defined $info->{created} ? $info->{created} : '1999-12-31 23:59:59'; my $q = sub { my $s = shift; $s =~ s/'/''/g; "'$s'" }; my @v = cols($w[0][1]); eq_(join(' & ', @v), join(' & ', 'NULL', $q->($info->{name}), $q->($au), $q->($cr), defined $info->{description} ? $q->($info->{description}) : "''"), "$lab: values inserted");
            req($w[1][1] =~ /^\s*create\s+table\s+exptrials_41\b/i, "$lab: table created: $w[1][1]"); my %have = map { $_ => 1 } cols($w[1][1]); for my $k (@ci) { req($have{"$k $in{$k}"}, "$lab: input column $k is missing in $w[1][1]"); } for my $k (@co) { req($have{"$k $out{$k}"}, "$lab: output column $k is missing"); } req($have{$_}, "$lab: column $_ is missing") for @extra; eq_(scalar(grep { /^\w+ (?:int|enum\(.*\)|decimal\(3,1\)|varchar\(3\))$/ && !/^exec_/ } keys %have), @ci + @co + @extra, "$lab: further columns") if 1; my ($f) = grep { $_->[0] eq 'find' } @sent; my $w0 = $f->[1]; for my $p ('name = ' . $q->($info->{name}), 'author = ' . $q->($au), 'created = ' . $q->($cr)) { my $z = $p; my $y = $w0; s/\s+//g for $z, $y; req(index($y, $z) >= 0, "$lab: the new experiment is looked up without $p"); } } };
    my $lab = "create in(" . join(',', map { s/\n/\\n/r } sort keys %in) . ") out(" . join(',', map { s/\n/\\n/r } sort keys %out) . ") form $m fault $fault"; note($lab); state($lab); $run->($lab);
    # a corrected description of the same experiment
    if (!$fault && $m == 0) { delete $info->{author}; delete $info->{created}; for my $h ([inputs => \%in], [outputs => \%out]) { for my $k (grep { !good_col($_) } sort keys %{ $h->[1] }) { delete $h->[1]{$k}; delete $info->{ $h->[0] }{$k}; } } for (sort keys %in) { delete $out{$_}; delete $info->{outputs}{$_}; } for my $again (1, 2) { $run->("$lab, corrected"); delete $info->{author}; delete $info->{created}; } } outcome(defined $died ? 'refused' : 'made'); }
sub finding { fresh(); my %w; my $lab = ''; for (['expid', 17], ['name', "it's"], ['author', 'me'], ['created', '2001-02-03 04:05:06']) { if (choose(2)) { $w{ $_->[0] } = $_->[1]; $lab .= "$_->[0] "; } } my $rows = choose(4); my $exec = choose(2); my $info = {%w, other => 1}; my $sent; $ANSWER = sub { $sent = $_[0]; return $exec ? { die => 'refused' } : { data => [map { ["4$_", "n$_", "a$_", "c$_"] } 1 .. $rows] } }; my ($id) = attempt(sub { Plot::Mercury->find_experiment($info) }); $lab = "find by $lab($rows found" . ($exec ? ', refused' : '') . ')'; note($lab); state($lab); step(); my $bad = !%w || $exec || $rows != 1; eq_(defined $died ? 1 : 0, $bad ? 1 : 0, "$lab: failed (" . ($died || '') . ")"); if (!%w) { req(!defined $sent, "$lab: asked the database"); return; }
    my ($cond) = $sent =~ /\bwhere\b\s*(.*?)\s*$/is or fail_('where', "$lab: no condition in $sent"); my %c = map { s/\s+//gr => 1 } split /\s+and\s+/i, $cond; my %x = map { my $v = $w{$_}; $v =~ s/'/''/g; my $e = "$_=" . ($_ eq 'expid' ? $v : "'$v'"); $e =~ s/\s+//g; ($e => 1) } keys %w; eq_(join('&', sort keys %c), join('&', sort keys %x), "$lab: condition"); if (!$bad) { eq_($id, '41', "$lab: identifier"); eq_(join(' ', map { $info->{$_} } qw(expid name author created other)), '41 n1 a1 c1 1', "$lab: what was filled in"); } else { eq_(join(' ', map { "$_=$info->{$_}" } sort keys %$info), join(' ', map { "$_=" . ($_ eq 'other' ? 1 : $w{$_}) } sort(keys %w, 'other')), "$lab: the description after a failure"); } }
# ---- reloading
our ($LOADS, $VER); my $serial = 0;
sub reloading { my ($depth) = @_; anew(); my $d = scratch(); my $mod = "Mc40x" . $$ . "x" . ++$serial; $_ = "$d/$_" for my @dirs = ('one', 'two'); for (@dirs) { mkdir $_; unlink glob("$_/*"); } my $rel = choose(2); my @inc = @INC; require Cwd; my $cwd = Cwd::cwd(); chdir $d; local @INC = $rel ? ('one', 'two', @inc) : (@dirs, @inc); my $at = choose(2); my $sub = choose(2); my $name = $sub ? "Two::Three::$mod" : $mod; my $t = 1_000_000_000; my (%file, %seen); my $log = ($rel ? 'relative, ' : '') . "in directory $at, "; my $where = sub { "$d/" . ('one', 'two')[$_[0]] . ($sub ? '/Two/Three' : '') . "/$mod.pm" }; if ($sub) { for (@dirs) { mkdir "$_/Two"; mkdir "$_/Two/Three"; } } my $v = 0; $VER = 0; $LOADS = 0; my $err;
    my $write = sub { my ($i, $kind) = @_; $v++; $t += 10; put($where->($i), "package $name; " . ($kind eq 'syntax' ? "sub {{ ;" : "\$main::LOADS++; \$main::VER = $v; ") . ($kind eq 'dies' ? "die 'while loading';" : '') . ($kind eq 'errno' ? ' $! = 2; 1;' : $kind eq 'false' ? ' 0;' : ' 1;') . "\n"); my $mt = $kind eq 'errno' ? 2_000_000_000 - $t : $t; utime $mt, $mt, $where->($i); $file{$i} = { v => $v, t => $mt, kind => $kind }; }; $write->($at, 'good');
    eval { for my $s (1 .. $depth + 1) { my $op = $s > $depth ? 0 : choose(9); if ($op <= 2) { my $verbose = $op == 2; my $stale = $op == 1; my ($i) = sort keys %file; my ($l0, $v0) = ($LOADS, $VER); my $out = ''; { open my $h, '>', \$out; my $o = select $h; $! = $stale ? 2 : 0; attempt(sub { Plot::Mercury::reload_use($name, $verbose) }); select $o; } step(); $log .= " reload" . ($verbose ? ' verbosely' : '') . ($stale ? ' (old error)' : '') . ";"; my $f = defined $i ? $file{$i} : undef; my $same = $f && defined $seen{$i} && $seen{$i} == $f->{t}; my $bad = !$f || (!$same && $f->{kind} =~ /syntax|false|dies/); eq_(defined $died ? 1 : 0, $bad ? 1 : 0, "$log failed (" . (defined $died ? $died =~ s/\n/ /gr : '') . ")"); eq_($LOADS - $l0, !$f || $same || $f->{kind} eq 'syntax' ? 0 : 1, "$log times loaded"); eq_($VER, $f->{v}, "$log version") if $f && !$bad && !$same; $seen{$i} = $f->{t} if $f && !$bad; eq_($out eq '' ? 0 : 1, $verbose && !$bad ? 1 : 0, "$log something printed: '$out'"); }
        elsif ($op <= 6) { my $k = (qw(good syntax false errno))[$op - 3]; $write->($at, $k); $log .= " $k version;"; } elsif ($op == 7) { my $i = 1 - $at; if ($file{$i}) { unlink $where->($i); delete $file{$i}; $log .= " other removed;"; } else { $write->($i, 'good'); $log .= " other written;"; } } else { if ($file{$at}) { unlink $where->($at); delete $file{$at}; $log .= " removed;"; } else { $write->($at, 'dies'); $log .= " dying version;"; } }
        state(join ';', map { "$_ $file{$_}{kind} " . (defined $seen{$_} && $seen{$_} == $file{$_}{t} ? 'seen' : 'new') } sort keys %file); } 1 } or do { my $e = $@; chdir $cwd; clear($d, @dirs); die $e; }; note("%s", $log); outcome($log); chdir $cwd; clear($d, @dirs); }
sub clear { my ($d, @dirs) = @_; for (@dirs) { unlink glob("$_/Two/Three/*"); rmdir "$_/Two/Three"; rmdir "$_/Two"; unlink glob("$_/*"); rmdir $_; } rmdir $d; }
sub configs { my $x = thorough();
    config("keys", \&dsn, "key files of up to " . ($x ? 3 : 2) . " lines of eighteen kinds x six keys"); config("statements", \&statements, "every helper x connection x prepare x execute outcome x row count"); config("connecting", \&connecting, "connecting with and without parameters and defaults"); config("reconnecting", \&reconnecting, "lost, healthy and broken connections, every number of failing attempts");
    config("creating", sub { creating($x ? 8 : 6) }, "experiments with up to two input and output columns of each kind, every failing statement, corrected and made again"); config("finding", \&finding, "every set of restrictions x rows found"); config("reloading", sub { reloading($x ? 4 : 3) }, "every sequence of module changes and reloads, absolute and relative directories, old errors left over"); }
run_main();
