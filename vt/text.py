"""Running the text monitor (cpp/vt_utf8.hpp) and perl's Unicode implementation over the same strings."""
import concurrent.futures as cf
import os
import subprocess
import tempfile

from . import build, run

PERL_TEXT = r"""
use strict; no warnings;
binmode STDIN, ':raw'; binmode STDOUT, ':raw';
while (my $l = <STDIN>) {
    chomp $l; my $s = pack('H*', $l); utf8::decode($s) or die; my (@g, @b);
    while ($s =~ /\G(\X)/gs) { push @g, length $1; }
    while ($s =~ /\b{lb}/g) { push @b, pos($s); }
    print join(',', @g), "\t", join(',', @b), "\n";
}
"""
PERL_TABLE = r"""
use strict; no warnings;
my ($lo, $hi) = @ARGV; my ($pg, $pl) = ('', '');
my @gcb = qw(CR LF Control Extend ZWJ RI Prepend SpacingMark L V T LV LVT);
my @lbc = qw(AL BA BB B2 BK CB CL CM CP CR EB EM EX GL H2 H3 HY ID HL IN IS JL JT JV LF NL NS NU OP PO PR QU RI SP SY WJ ZW ZWJ CJ SA AI SG XX);
my @g = map { my $x = $_; [$x, qr/\p{GCB=$x}/] } @gcb;
my @l = map { my $x = $_; [$x, qr/\p{LB=$x}/] } @lbc;
for my $c ($lo .. $hi - 1) {
    next if $c >= 0xD800 && $c <= 0xDFFF;
    my $s = chr $c;
    next unless $s =~ /\p{Present_In: 14.0}/;
    my $w = $s =~ /[\p{EastAsianWidth=W}\p{EastAsianWidth=F}]/ ? 2 : $s =~ /[\p{Mn}\p{Me}]/ ? 0 : 1;
    my ($g, $l) = ('XX', 'XX');
    for (@g) { if ($s =~ $_->[1]) { $g = $_->[0]; last } }
    $g = 'EP' if $g eq 'XX' && $s =~ /\p{Extended_Pictographic}/;
    for (@l) { if ($s =~ $_->[1]) { $l = $_->[0]; last } }
    printf "%x %d %d %s %s\n", $c, $w, ($s =~ /\p{White_Space}/ ? 1 : 0), $g, $l;
}
"""


def unit(flags=build.SAN, extra=()):
    return build.Unit('utf8', '#include "vt_utf8.hpp"\nint main(int c, char** v) { return vt::run_text(c, v); }\n',
                      flags=list(flags) + list(extra))


def hexs(b):
    return b.hex() or '_'


def run_lines(exe, lines, jobs=8, tmo=300):
    """Output lines parallel to the input lines; None from where the process died, with its error text."""
    n = max(1, (len(lines) + jobs - 1) // jobs)
    chunks = [lines[i:i + n] for i in range(0, len(lines), n)]

    def go(ch):
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            with open(os.path.join(d, 'in'), 'w') as f:
                f.write('\n'.join(ch) + '\n')
            try:
                p = subprocess.run([exe, 'in', 'out'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=tmo,
                                   env={**os.environ, **run.SAN_ENV})
                rc, err = p.returncode, p.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', 'did not terminate'
            out = open(os.path.join(d, 'out'), errors='replace').read().split('\n')[:-1] if rc != 'timeout' or \
                os.path.exists(os.path.join(d, 'out')) else []
            return out, rc, err
    res, errs = [], []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for ch, (out, rc, err) in zip(chunks, ex.map(go, chunks)):
            if rc != 0:
                i = min(len(out), len(ch) - 1)
                errs.append((ch[i], 'timeout' if rc == 'timeout' else run._summary(err)))
            res += (out + [None] * len(ch))[:len(ch)]
    return res, errs


def perl(script, args=(), inp=''):
    p = subprocess.run(['perl', '-e', script] + [str(a) for a in args], input=inp.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise build.HarnessError('perl: ' + p.stderr.decode('utf-8', 'replace')[:500])
    return p.stdout.decode().split('\n')[:-1]


def perl_text(strs, jobs=8):
    """For each string (code point lengths of grapheme clusters, line break opportunities)."""
    n = max(1, (len(strs) + jobs - 1) // jobs)
    chunks = [strs[i:i + n] for i in range(0, len(strs), n)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = ex.map(lambda ch: perl(PERL_TEXT, inp='\n'.join(s.encode().hex() for s in ch) + '\n'), chunks)
    res = []
    for o in outs:
        for x in o:
            g, b = x.split('\t')
            res.append(([int(i) for i in g.split(',') if i], {int(i) for i in b.split(',') if i}))
    return res


def perl_table(lo=0, hi=0x110000, jobs=8):
    """{code point: (columns, whitespace, grapheme class, line break class)} for Unicode 14."""
    step = (hi - lo + jobs * 4 - 1) // (jobs * 4)
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda a: perl(PERL_TABLE, (a, min(hi, a + step))), range(lo, hi, step)))
    res = {}
    for o in outs:
        for x in o:
            c, w, ws, g, b = x.split(' ')
            res[int(c, 16)] = (int(w), int(ws), g, b)
    return res


def spans(field):
    """'0+1:97,1+2' -> [(0, 1), (1, 2)]; None if the iterator did not end."""
    if '!stuck' in field:
        return None
    return [tuple(int(y) for y in x.split(':')[0].rstrip('?').split('+')) for x in field.split(',') if x]


def code_points(exe, jobs=8):
    """{code point: (decodes, columns, whitespace)} for all code points."""
    res, errs = {}, []
    step = 0x110000 // (jobs * 2)

    def go(lo):
        hi = lo + step
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            with open(os.path.join(d, 'in'), 'w') as f:
                f.write(f'a {lo:x} {hi:x}\n')
            p = subprocess.run([exe, 'in', 'out'], cwd=d, stderr=subprocess.PIPE, env={**os.environ, **run.SAN_ENV}, timeout=300)
            return lo, open(os.path.join(d, 'out')).read(), p.returncode, p.stderr.decode('utf-8', 'replace')
    with cf.ThreadPoolExecutor(jobs) as ex:
        for lo, out, rc, err in ex.map(go, range(0, 0x110000, step)):
            if rc != 0:
                errs.append((f'code points from {lo:x}', run._summary(err)))
            for x in out.split('\n')[:-1]:
                c, ok, w, ws = x.split(' ')
                res[int(c, 16)] = (ok == '1', int(w), int(ws))
    return res, errs
