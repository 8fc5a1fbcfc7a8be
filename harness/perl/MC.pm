# E3: stateless exploration of Perl code. A body draws every decision from choose(); all decision sequences are run.
package MC;
use strict; use warnings;
use Exporter 'import';
our @EXPORT = qw(choose pick req eq_ fail_ note step state outcome prune past_prefix again thorough config run_main);
use Digest::MD5 'md5'; use POSIX (); use Storable ();
our $HANG = 60; my (@pre, @cur, @fan); my $cut = 1e9; my $lowest = 0; my $tracing = 0; my @notes; my $tier = 'quick'; my (%st, %oc); my ($execs, $trans, $pruned, $maxlen) = (0, 0, 0, 0); my @configs; my %known;
sub thorough { $tier eq 'thorough' }
sub choose { my ($n) = @_; die "MC: choose($n)\n" if $n <= 0; return 0 if $n == 1; my $i = @cur; my $c = 0;
    if ($i < @pre) { $c = $pre[$i]; if ($c >= $n) { print STDERR "mc: replay diverged\n"; POSIX::_exit(97); } }
    if ($i >= $cut) { $MC::ended ||= bless({}, 'MC::Cut'); die $MC::ended; } push @cur, $c; push @fan, $n; return $c; }
sub pick { my ($a) = @_; return $a->[choose(scalar @$a)]; }
sub fail_ { my ($key, $msg) = @_; die $MC::ended if $MC::ended; $MC::failed ||= { key => $key, msg => $msg }; die bless({ key => $key, msg => $msg }, 'MC::Violation'); }
sub req($$;$) { my ($ok, $what, $key) = @_; fail_($key || _key(), $what) unless $ok; }
sub eq_($$;$) { my ($got, $want, $what) = @_; $got = 'undef' unless defined $got; $want = 'undef' unless defined $want; fail_(_key(), "got $got expected $want $what") unless $got eq $want; }
sub _key { my ($p, $f, $l) = caller(1); my $s = (caller(2))[3] || 'main'; open my $h, '<', $f or return "$s"; my @x = <$h>; my $t = $x[$l - 1]; $t = '' unless defined $t; $t =~ s/^\s+|\s+$//g; $t =~ s/\s+/ /g; return substr("$s:" . unpack('H8', md5($t)), 0, 80); }
sub note { return unless $tracing; my $s = sprintf(@_ > 1 ? shift : '%s', @_); push @notes, $s; print "  $s\n" if $tracing == 1; }
sub step { $trans += $_[0] || 1; }
sub state { my ($s) = @_; $trans++; $st{substr(md5($s), 0, 8)} = 1; }
sub outcome { my ($s) = @_; $oc{substr(md5($s), 0, 8)} = 1; }
# code that catches everything it calls must let the explorer's own exceptions through
sub again { my ($e) = @_; fail_($MC::failed->{key}, $MC::failed->{msg}) if $MC::failed; die $MC::ended if $MC::ended; die $e if ref $e && ref($e) =~ /^MC::/; }
# true where every branch below will be run by this process (so a state seen twice need not be entered twice)
sub past_prefix { return @cur >= @pre && @cur >= $lowest && $cut > 1e8 && !$tracing; }
sub prune { $MC::ended ||= bless({}, 'MC::Prune'); die $MC::ended; }
sub config { my ($name, $body, $rule, $costly) = @_; push @configs, { name => $name, body => $body, rule => $rule, costly => $costly }; }
sub _one { my ($cfg, $p) = @_; @pre = @$p; @cur = @fan = @notes = (); $MC::failed = $MC::ended = undef; my $bad;
    my $ok = eval { local $SIG{__DIE__} = 'DEFAULT'; local $SIG{ALRM} = sub { fail_('hang', "did not end within $MC::HANG seconds") }; alarm($MC::HANG); $cfg->{body}->(); 1 }; my $e = $@; alarm 0;
    # a violation raised inside the code under test may have been caught or reworded by it
    if ($MC::failed) { $bad = $MC::failed; } elsif ($MC::ended) { $pruned++ if ref $MC::ended eq 'MC::Prune'; }
    elsif (!$ok) { if (ref $e eq 'MC::Violation') { $bad = { key => $e->{key}, msg => $e->{msg} }; } elsif (ref $e eq 'MC::Cut') { } elsif (ref $e eq 'MC::Prune') { $pruned++; } else { my $k = "$e"; $k =~ s/ at \S+ line .*//s; $k =~ s/\d+/N/g; $bad = { key => 'exception:' . substr($k, 0, 80), msg => "unexpected exception: $e" }; } }
    $execs++; $maxlen = @cur if @cur > $maxlen; if ($bad) { $bad->{msg} =~ s/\n/ /g; $bad->{key} =~ s/\n/ /g; if ($known{"$cfg->{name}:$bad->{key}"}) { if ($ENV{MC_KNOWN_HITS}) { open my $h, '>>', $ENV{MC_KNOWN_HITS}; print $h "$cfg->{name}:$bad->{key}\n"; } return undef; } }
    return $bad; }
sub _advance { my ($lo, $hi) = @_; my @p = @cur; splice(@p, $hi) if @p > $hi; while (@p > $lo) { my $i = $#p; if ($p[$i] + 1 < $fan[$i]) { $p[$i]++; return \@p; } pop @p; } return undef; }
sub _explore { my ($cfg, $jobs, $maxsec) = @_; my $t0 = time; my @prefixes = ([]); my %r = (name => $cfg->{name}, rule => $cfg->{rule}, violated => 0, exhaustive => 1, samples => []);
    # phase 1: prefixes, in a child so that the parent stays clean
    for my $d (1 .. 8) { my ($rd, $wr); pipe($rd, $wr) or die; my $pid = CORE::fork(); die "fork: $!" unless defined $pid;
        if (!$pid) { close $rd; _quiet(); my @out; my $p = []; my $over = 0; $cut = $d; while (1) { my $b = _one($cfg, $p); if ($b) { print $wr Storable::freeze({ bad => $b, cur => [@cur] }); close $wr; POSIX::_exit(0); } push @out, [@cur]; if (@out > 3000) { $over = 1; last; } $p = _advance(0, $d) or last; } print $wr Storable::freeze({ out => \@out, over => $over }); close $wr; POSIX::_exit(0); }
        close $wr; my $buf = do { local $/; <$rd> }; CORE::waitpid($pid, 0); if (!defined $buf || $buf eq '') { return { %r, violated => 1, exhaustive => 0, key => 'crash', msg => "process ended with status $?", choices => [] }; } my $x = Storable::thaw($buf);
        if ($x->{bad}) { return { %r, violated => 1, exhaustive => 0, key => $x->{bad}{key}, msg => $x->{bad}{msg}, choices => $x->{cur}, wall => time - $t0 }; }
        last if $x->{over}; @prefixes = @{ $x->{out} }; last if @prefixes >= $jobs * ($cfg->{costly} ? 2 : 16) || !grep { @$_ >= $d } @prefixes; }
    my @kids; for my $j (0 .. $jobs - 1) { my ($rd, $wr); pipe($rd, $wr) or die; my $pid = CORE::fork(); die "fork: $!" unless defined $pid;
        if (!$pid) { close $rd; _quiet(); ($execs, $trans, $pruned, $maxlen) = (0, 0, 0, 0); %st = %oc = (); $cut = 1e9; my $bad; my $full = 1;
            P: for (my $i = $j; $i < @prefixes; $i += $jobs) { my $p = $prefixes[$i]; my $lo = @$p; $lowest = $lo; while (1) { $bad = _one($cfg, $p) and last P; if (($execs & 63) == 0 && time - $t0 > $maxsec) { $full = 0; last P; } $p = _advance($lo, 1e9) or last; } }
            print $wr Storable::freeze({ bad => $bad, cur => [@cur], execs => $execs, trans => $trans, pruned => $pruned, maxlen => $maxlen, st => join('', keys %st), oc => join('', keys %oc), full => $full }); close $wr; POSIX::_exit(0); }
        close $wr; push @kids, [$pid, $rd]; }
    my (%S, %O); for my $k (@kids) { my $rd = $k->[1]; my $buf = do { local $/; <$rd> }; CORE::waitpid($k->[0], 0); if (!defined $buf || $buf eq '') { $r{violated} = 1; $r{exhaustive} = 0; $r{key} ||= 'crash'; $r{msg} ||= "process ended with status $?"; $r{choices} ||= []; next; } my $x = Storable::thaw($buf);
        $r{executions} += $x->{execs}; $r{transitions} += $x->{trans}; $r{pruned} += $x->{pruned}; $r{max_choices} = $x->{maxlen} if $x->{maxlen} > ($r{max_choices} || 0); $S{$_} = 1 for unpack('(a8)*', $x->{st}); $O{$_} = 1 for unpack('(a8)*', $x->{oc}); $r{exhaustive} = 0 unless $x->{full};
        if ($x->{bad} && !$r{violated}) { $r{violated} = 1; $r{exhaustive} = 0; $r{key} = $x->{bad}{key}; $r{msg} = $x->{bad}{msg}; $r{choices} = $x->{cur}; } }
    $r{states} = keys %S; $r{outcomes} = keys %O; $r{wall} = time - $t0; 
    if (!$r{violated}) { my $x = _forked($cfg, $prefixes[int(@prefixes / 2)], 2); push @{ $r{samples} }, "$cfg->{name}: " . $x->{notes} if $x; }
    return \%r; }
sub _quiet { open STDOUT, '>', '/dev/null'; open STDERR, '>', '/dev/null' unless $ENV{MC_STDERR}; }
sub _forked { my ($cfg, $choices, $trace) = @_; my ($rd, $wr); pipe($rd, $wr) or die; STDOUT->flush(); my $pid = CORE::fork(); if (!$pid) { close $rd; _quiet() if $trace != 1; $tracing = $trace; $cut = 1e9; my $b = _one($cfg, $choices); my $n = join('; ', @notes); $n = 'choices ' . join(',', @cur) if $n eq ''; print $wr Storable::freeze({ bad => $b, notes => substr($n, 0, 1500) }); close $wr; POSIX::_exit(0); } close $wr; my $buf = do { local $/; <$rd> }; CORE::waitpid($pid, 0); return undef unless defined $buf && $buf ne ''; return Storable::thaw($buf); }
sub run_main { binmode STDOUT; $| = 1; if (@ARGV && $ARGV[0] eq 'replay') { my (undef, $name, $ch, $t) = @ARGV; $tier = $t || 'quick'; main::configs(); my ($cfg) = grep { $_->{name} eq $name } @configs; die "no configuration $name\n" unless $cfg; my $x = _forked($cfg, [split /,/, $ch], 1); if (!$x) { print "VIOLATED crash\n"; exit 1; } if ($x->{bad}) { print "VIOLATED $x->{bad}{key}: $x->{bad}{msg}\n"; exit 1; } print "no violation\n"; exit 0; }
    my ($t, $out, $rdir, $jobs) = @ARGV; $tier = $t; $known{$_} = 1 for split /\n/, $ENV{MC_KNOWN} || ''; main::configs(); my @res; my $viol = 0; my $only = $ENV{MC_ONLY};
    for my $cfg (@configs) { next if defined $only && $cfg->{name} ne $only; my $w0 = Time(); my $r = _explore($cfg, $jobs, $t eq 'quick' ? 300 : 7200); $r->{wall} = Time() - $w0; $r->{$_} ||= 0 for qw(executions transitions pruned max_choices states outcomes);
        if ($r->{violated}) { my $n = 0; for (1 .. 2) { my $x = _forked($cfg, $r->{choices}, 2); $n++ if !$x || $x->{bad}; } if ($n) { my $p = "$rdir/$cfg->{name}.replay"; open my $h, '>', $p; print $h "config: $cfg->{name}\nviolation: $r->{key}\nmessage: $r->{msg}\nchoices: " . join(',', @{ $r->{choices} }) . "\nreplay with: perl $0 replay $cfg->{name} " . join(',', @{ $r->{choices} }) . " $tier\n"; close $h; my ($m, $k) = map { my $t = $_; $t =~ s/[^\x20-\x7e]/ /g; $t } substr($r->{msg}, 0, 900), $r->{key}; print "FOUND config=$cfg->{name} key=$k msg=$m replay=$p\n"; $viol++; } else { print "mc: violation of $cfg->{name} not confirmed: $r->{msg}\n"; exit 3; } }
        printf "config %-28s execs %10d transitions %11d states %9d outcomes %8d maxlen %d %s %.1fs\n", $cfg->{name}, @$r{qw(executions transitions states outcomes max_choices)}, $r->{exhaustive} ? 'exhaustive' : 'NOT-EXHAUSTIVE', $r->{wall}; push @res, $r; }
    open my $h, '>', $out or die; print $h '{"configs":[' . join(',', map { my $r = $_; '{' . join(',', (map { qq("$_":) . _js($r->{$_}) } qw(name rule)), qq("key":) . _js($r->{key} || ''), qq("msg":) . _js($r->{msg} || ''), (map { qq("$_":) . (0 + $r->{$_}) } qw(executions transitions states outcomes pruned max_choices)), qq("exhaustive":) . ($r->{exhaustive} ? 'true' : 'false'), qq("violated":) . ($r->{violated} ? 'true' : 'false'), qq("wall_s":) . sprintf('%.2f', $r->{wall}), qq("samples":[) . join(',', map { _js($_) } @{ $r->{samples} }) . ']') . '}' } @res) . ']}'; close $h; exit($viol ? 1 : 0); }
sub Time { require Time::HiRes; Time::HiRes::clock_gettime(Time::HiRes::CLOCK_MONOTONIC()) }
sub _js { my ($s) = @_; $s =~ s/([\\"])/\\$1/g; $s =~ s/\n/\\n/g; $s =~ s/([^\x20-\x7e])/sprintf('\\u%04x', ord $1)/ge; return qq("$s"); }
1;
