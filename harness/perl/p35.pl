# P35: Lintel::Net::SSH::KnownHostsFile over real files in a scratch home folder, a stand-in ssh and resolver.
use strict; use warnings;
use FindBin; use lib $FindBin::Bin; use MC; use File::Temp; use Socket; use Digest::SHA; use MIME::Base64; use Fcntl ();
our (%HOSTS, $GONE);
BEGIN { require lib; lib->import("$ENV{MC_REPO}/src"); *CORE::GLOBAL::gethostbyname = sub { my ($h) = @_; my $ip = $main::HOSTS{lc $h}; return () unless defined $ip; return ($h, '', 2, 4, Socket::inet_aton($ip)); }; }
$MC::HANG = 10; $SIG{XFSZ} = 'IGNORE';
my $W = File::Temp::tempdir("/tmp/mcp35.XXXXXX", CLEANUP => 0); my $OWNER = $$; END { if (defined $OWNER && $$ == $OWNER) { system('/bin/rm', '-rf', $W) if $W =~ m!^/tmp/mcp35\.\w+$!; } }
# one copy of the module for each ssh version, loaded under a package of its own
my @VER = ('3.9p1', '4.0', '8.9p1', '10.2p1'); my %SUP = ('3.9p1' => 0, '4.0' => 1, '8.9p1' => 1, '10.2p1' => 1);
mkdir "$W/bin"; { local $ENV{PATH} = "$W/bin:$ENV{PATH}"; open my $s, '<', "$ENV{MC_REPO}/src/Lintel/Net/SSH/KnownHostsFile.pm" or die; my $src = do { local $/; <$s> }; $src =~ s/^__END__.*//ms; for my $v (@VER) { open my $h, '>', "$W/bin/ssh"; print $h "#!/bin/sh\necho 'OpenSSH_$v Debian-1, OpenSSL 1.0' >&2\necho usage >&2\nexit 255\n"; close $h; chmod 0755, "$W/bin/ssh"; (my $p = $v) =~ s/\W/_/g; (my $t = $src) =~ s/Lintel::Net::SSH::KnownHostsFile/KH$p/g; eval $t or die "loading for $v: $@"; } }
sub impl { my ($v, $f) = @_; (my $p = $v) =~ s/\W/_/g; return \&{ \&{"KH${p}::$f"} }; }
BEGIN { no strict 'refs'; }
%HOSTS = ('web.a' => '10.0.0.1', 'webxa' => '10.0.0.2', 'web.a.org' => '110.0.0.1', '10.0.0.1' => '10.0.0.1', 'b-2' => '10.0.0.17', 'web' => '1.0.0.1');
my @ASK = ('web.a', 'webxa', 'web.a.org', '10.0.0.1', 'web', 'WEB.A');
sub hashed { my ($n, $salt) = @_; my $s = pack('A20', "salt$salt$n"); my $d = MIME::Base64::encode_base64(Digest::SHA::hmac_sha1($n, $s), ''); return '|1|' . MIME::Base64::encode_base64($s, '') . "|$d"; }
# [names, text of the name field]; a hashed entry is [\name]
sub entries { return (['web.a'], ['web.a', '10.0.0.1'], ['10.0.0.1'], ['webxa'], ['webxa', '10.0.0.2'], ['WEB.A'], ['web.a.org', '110.0.0.1'], ['10.0.0.17'], ['10x0x0x1'], ['1.0.0.1'], ['web-a', '10.0.0.1'], [\'web.a'], [\'10.0.0.1'], [\'webxa'], [\'web'], '# web.a comment', '', '[web.a]:2222 ssh-rsa AAAAport', ['10.0.0.1', 'web-c'], ['10.0.0.1', 'web.a', 'xyz']); }
sub line { my ($e, $i) = @_; return "$e\n" unless ref $e; my $n = ref $e->[0] ? hashed(${ $e->[0] }, $i) : join(',', @$e); return "$n ssh-rsa AAAAB3key$i/+== user\@$i\n"; }
# does an entry belong to a host? (for clearing: also by its address)
sub belongs { my ($e, $host, $sup, $clear) = @_; return 0 unless ref $e; my $ip = $HOSTS{ lc $host }; if (ref $e->[0]) { return $sup && (${ $e->[0] } eq $host || ${ $e->[0] } eq $ip); } return 1 if lc $e->[0] eq lc $host; return $clear && $e->[-1] eq $ip ? 1 : 0; }
sub slurp { my ($f) = @_; open my $h, '<', $f or return undef; local $/; my $t = <$h>; return defined $t ? $t : ''; }
sub quiet { my ($f) = @_; open my $so, '>&', \*STDOUT; open STDOUT, '>', '/dev/null'; my @r; my $ok = eval { @r = $f->(); 1 }; my $e = $@; open STDOUT, '>&', $so; MC::again($e) unless $ok; return ($ok ? 1 : 0, $e, @r); }
sub home { my $h = "$W/home$$"; system('/bin/rm', '-rf', $h) if -d $h; mkdir $h; mkdir "$h/.ssh"; $ENV{HOME} = $h; return $h; }
my $HOME; my $HPID = 0;
sub ask { my ($n, $entries, $vers) = @_; if ($HPID != $$) { $HOME = home(); $HPID = $$; } my $f = "$HOME/.ssh/known_hosts"; my $v = MC::pick($vers); my @e = map { MC::pick($entries) } 1 .. $n; my $i = 0; my @l = map { line($_, $i++) } @e; my $nonl = @l && MC::choose(2); chomp $l[-1] if $nonl; my $txt = join '', @l; my $host = MC::pick(\@ASK); MC::note("OpenSSH %s, host %s, lines: %s", $v, $host, join(' / ', map { ref $_ ? (ref $_->[0] ? "hash(${$_->[0]})" : join(',', @$_)) : "'$_'" } @e)); MC::state("$v $host $txt");
    open my $h, '>', $f; print $h $txt; close $h; chmod 0640, $f; utime(1e9, 1e9, $f); my ($ok, $err, $has) = quiet(sub { impl($v, 'has_host_key')->($host) }); MC::req($ok, "asking for $host fails: $err"); my $want = grep({ belongs($_, $host, $SUP{$v}, 0) } @e) ? 1 : 0; MC::eq_($has ? 1 : 0, $want, "whether $host has a key"); MC::eq_(slurp($f), $txt, "asking changed the file");
    ($ok, $err) = quiet(sub { impl($v, 'clear_host_key')->($host) }); MC::req($ok, "clearing $host fails: $err"); my @keep = map { $l[$_] } grep { !belongs($e[$_], $host, $SUP{$v}, 1) } 0 .. $#l; MC::eq_(slurp($f), join('', @keep), "file after clearing $host from: $txt"); MC::req((stat $f)[9] == 1e9, "nothing to clear, but the file was written") if @keep == @l; MC::eq_((stat $f)[2] & 07777, 0640, "mode of the file"); opendir my $d, "$HOME/.ssh"; MC::eq_(join(' ', sort grep { !/^\.\.?$/ } readdir $d), 'known_hosts', 'files left behind'); MC::outcome(join '', @keep); }
# a full disk after any number of bytes: the error is reported and the file is as before
sub limit { my ($n) = @_; no warnings; return syscall(160, 1, my $b = pack('QQ', $n, ~0)) == 0; }
sub full { my ($step) = @_; if ($HPID != $$) { $HOME = home(); $HPID = $$; } my $f = "$HOME/.ssh/known_hosts"; my @e = map { MC::pick([(entries())[0, 3, 7]]) } 1 .. 3; my $i = 0; my @l = map { line($_, $i++) } @e; my $txt = join '', @l; my @keep = map { $l[$_] } grep { !belongs($e[$_], 'web.a', 1, 1) } 0 .. $#l; my $k = length join '', @keep; my $at = MC::choose(int(length($txt) / $step) + 2) * $step; MC::note("disk full after %d bytes of %d", $at, $k); MC::state("$txt $at"); open my $h, '>', $f; print $h $txt; close $h;
    limit($at) or die "setrlimit"; my ($ok, $err) = quiet(sub { impl('8.9p1', 'clear_host_key')->('web.a') }); limit(~0) or die "setrlimit"; if (@keep == @l || $k <= $at) { MC::req($ok, "clearing fails: $err"); MC::eq_(slurp($f), join('', @keep), 'file'); } else { MC::req(!$ok, "no error although the disk was full"); MC::eq_(slurp($f), $txt, 'the file after the failure'); } opendir my $d, "$HOME/.ssh"; for (grep { !/^\.\.?$/ && $_ ne 'known_hosts' } readdir $d) { unlink "$HOME/.ssh/$_"; MC::fail_('left', "file left behind: $_"); } }
sub odd { if ($HPID != $$) { $HOME = home(); $HPID = $$; } my $f = "$HOME/.ssh/known_hosts"; unlink $f; my $v = MC::pick(\@VER); my $fn = MC::pick(['has_host_key', 'clear_host_key']); my $k = MC::choose(4); if ($k == 0) { my ($ok) = quiet(sub { impl($v, $fn)->('web.a') }); MC::req(!$ok, "no error without a file"); MC::req(!-e $f, "a file was made"); }
    elsif ($k == 1) { open my $h, '>', $f; print $h "x y z\n"; close $h; my ($ok) = quiet(sub { impl($v, $fn)->('nosuchhost') }); MC::req(!$ok, "no error for an unknown host"); MC::eq_(slurp($f), "x y z\n", "file"); }
    elsif ($k == 2) { open my $h, '>', "$f.real"; print $h "web.a k 1\nwebxa k 2\n"; close $h; symlink "$f.real", $f; my ($ok, $e, $r) = quiet(sub { impl($v, $fn)->('web.a') }); MC::req($ok, $e); MC::req(-l $f, "the link was replaced"); MC::eq_(slurp("$f.real"), $fn eq 'has_host_key' ? "web.a k 1\nwebxa k 2\n" : "webxa k 2\n", 'file behind the link'); unlink "$f.real", $f; }
    else { open my $h, '>', $f; close $h; my ($ok, $e, $r) = quiet(sub { impl($v, $fn)->('web.a') }); MC::req($ok && !$r || $fn ne 'has_host_key', "empty file: $e"); } MC::state("$v $fn $k"); }
sub configs { my $x = MC::thorough(); my @e = entries(); for my $n (0 .. 2) { MC::config("lines_$n", sub { ask($n, \@e, \@VER) }, "every file of $n lines of all kinds, four ssh versions, six hosts"); } MC::config("lines_3", sub { ask(3, $x ? \@e : [@e[0, 1, 2, 3, 10, 11, 12, 15]], $x ? ['3.9p1', '10.2p1'] : ['8.9p1']) }, "every file of three lines"); MC::config("lines_4", sub { ask(4, [@e[0, 1, 3, 11, 15]], ['8.9p1']) }, "every file of four lines") if $x; MC::config("full", sub { full($x ? 1 : 3) }, "the disk full after every " . ($x ? '' : 'third ') . "number of bytes"); MC::config("odd", \&odd, "no file, unknown host, a link, an empty file"); }
MC::run_main();
