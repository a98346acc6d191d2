"""The checks, by property."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

CHECKS = {}
def check(prop, level='model_checking'):
    def deco(fn):
        CHECKS[prop] = (level, fn)
        return fn
    return deco


def repo_family(ctx, ops, prefixes, num, maxlen, deep=True, ncontents=8):
    import repo_run
    ctx.model_check('Repo', 'RepoMC.cfg', timeout=300)
    ctx.expect_mc_violation('Repo', 'RepoMC_bad.cfg', 'NoDangling is violated')
    if not ctx.quick and deep:
        ctx.model_check('Repo', 'RepoMC_deep.cfg', timeout=3000)
    scripts = repo_run.gen_scripts(ctx, num, maxlen, ops, ncontents)
    runs = repo_run.run_scripts(ctx, scripts)
    repo_run.judge(ctx, runs, prefixes)


@check('G01')
def g01(ctx):
    """TLA+ (TLC): Repo.tla (objects, packs, references, removal, two-phase collection with a
    partial bloom filter) model checked; generated histories run against real repositories and
    validated state by state | histories of 11 (16) commands drawn from 14 kinds; liveness
    thresholds 0..100"""
    repo_family(ctx, ['save', 'split', 'rm', 'rm2', 'rmbranch', 'tag', 'tagdel', 'gc', 'gcagain',
                      'midx', 'midxf', 'bloom', 'dup', 'lose'],
                ['G01', 'S', 'C01'], ctx.pick(40, 400), ctx.pick(11, 16))


@check('G02')
def g02(ctx):
    """TLA+ (TLC): Repo.tla model checked; generated histories run against real repositories and
    each collection's pack states validated | histories as for G01"""
    repo_family(ctx, ['save', 'split', 'rm', 'rmbranch', 'gc', 'gcagain', 'midxf', 'dup', 'tag',
                      'tagdel'],
                ['G02', 'G01.rc'], ctx.pick(40, 400), ctx.pick(11, 16))


@check('R01')
def r01(ctx):
    """TLA+ (TLC): Repo.tla model checked; generated histories of removals in real repositories
    validated against its histories of branches | as for G01"""
    repo_family(ctx, ['save', 'split', 'rm', 'rm2', 'rmbranch', 'rmbad', 'tag'],
                ['R01'], ctx.pick(40, 400), ctx.pick(12, 18))


@check('R03')
def r03(ctx):
    """TLA+ (TLC): Repo.tla model checked; generated histories with tags validated against it | as for
    G01"""
    repo_family(ctx, ['save', 'split', 'rm', 'rmbranch', 'gc', 'tag', 'tagdel', 'tagbad', 'taglist'],
                ['R03', 'G01.closed', 'G01.live-lost', 'G01.refs', 'R01.other-refs'],
                ctx.pick(40, 400), ctx.pick(12, 18), ncontents=4)


@check('O02')
def o02(ctx):
    """TLA+ (TLC): Repo.tla model checked; the packs after every command of generated histories are
    decoded independently and validated | pack limits, compression and histories sampled"""
    repo_family(ctx, ['save', 'split', 'rm', 'gc', 'midx', 'midxf', 'bloom', 'dup'],
                ['O02', 'S'], ctx.pick(40, 400), ctx.pick(11, 16))


def index_family(ctx, prefixes, num, maxlen, faults):
    import index_run
    ctx.model_check('Index', 'IndexMC.cfg', timeout=300)
    for k, inv in ((1, 'SnapshotExact'), (2, 'SnapshotExact'), (3, 'SnapshotComplete'),
                   (4, 'SnapshotExact')):
        ctx.expect_mc_violation('Index', f'IndexMC_bad{k}.cfg', inv + ' is violated')
    if not ctx.quick:
        ctx.model_check('Index', 'IndexMC_deep.cfg', timeout=3000, heap='12g')
    scripts = index_run.gen_scripts(ctx, num, maxlen, faults)
    index_run.judge(ctx, index_run.run_scripts(ctx, scripts, faults), prefixes)


@check('S02')
def s02(ctx):
    """TLA+ (TLC): Index.tla (file system, index, saves, clock) model checked; generated histories run
    in virtual time against the real commands, every snapshot validated | histories of 30 (40) steps
    over a small tree of names"""
    index_family(ctx, ['S02', 'harness'], ctx.pick(60, 600), ctx.pick(30, 40), False)


@check('S04')
def s04(ctx):
    """TLA+ (TLC): Index.tla; generated histories with injected system call failures and changes
    between index and save, validated against it | faults injected with LD_PRELOAD at calls chosen
    by path and kind"""
    index_family(ctx, ['S04', 'harness'], ctx.pick(60, 600),
                 ctx.pick(30, 40), True)


@check('R02')
def r02(ctx):
    """TLA+ (TLC): Prune.tla model checked exhaustively on small calendars; recorded prune-older
    runs on generated histories validated against it | all histories up to 9 saves per branch from
    a set of gap kinds are sampled, not enumerated; periods and ends are placed at and beside saves"""
    import prune_run
    ctx.model_check('PruneMC', 'PruneMC.cfg' if ctx.quick else 'PruneMC_deep.cfg', timeout=800,
                    coverage=False)
    ctx.expect_mc_violation('PruneMC', 'PruneMC_bad.cfg', 'is violated')
    prune_run.check(ctx, ctx.pick(120, 1500))


@check('V01')
def v01(ctx):
    """TLA+ (TLC): Vfs.tla (POSIX resolution) model checked for compositionality on all small link
    configurations; generated lookups in real repositories validated against it | generated trees
    of three levels with links in all positions; lookups through the vfs, ls and cat-file"""
    import vfs_run
    ctx.model_check('VfsMC', 'VfsMC.cfg' if ctx.quick else 'VfsMC_deep.cfg', timeout=800)
    ctx.expect_mc_violation('VfsMC', 'VfsMC_bad.cfg', 'is violated')
    vfs_run.check(ctx, ctx.pick(40, 500))


@check('V02')
def v02(ctx):
    """TLA+ (TLC): Names.tla (calendar, time zones with summer time, suffixes) model checked;
    listings and lookups in generated histories validated against it | histories of up to about
    40 saves in 5 time zones, changed between lookups by the same process"""
    import names_run
    ctx.model_check('NamesMC', 'NamesMC.cfg' if ctx.quick else 'NamesMC_deep.cfg', timeout=800)
    ctx.expect_mc_violation('NamesMC', 'NamesMC_bad.cfg', 'Sorted is violated')
    names_run.check(ctx, ctx.pick(60, 800))


@check('V03')
def v03(ctx):
    """TLA+ (TLC): Reader.tla (reading chunk trees) model checked against a flat file for all small
    trees; generated sessions of seeks and reads on real saved files validated against it | also
    whole files through cat-file, ftp and web, and reads through the fuse operations"""
    import reader_run
    ctx.model_check('ReaderMC', 'ReaderMC.cfg' if ctx.quick else 'ReaderMC_deep.cfg', timeout=1500)
    ctx.expect_mc_violation('ReaderMC', 'ReaderMC_bad.cfg', 'SizeRight is violated')
    reader_run.check(ctx, ctx.pick(24, 300))


@check('S01')
def s01(ctx):
    """TLA+ (TLC): TreeEnc.tla (name mangling) and Restore.tla model checked; generated trees with
    all types and metadata saved, decoded independently and restored, validated against them |
    trees of up to 40 nodes and wide directories, in several split configurations; no devices"""
    import tree_run
    ctx.model_check('TreeEncMC', 'TreeEncMC.cfg' if ctx.quick else 'TreeEncMC_deep.cfg', timeout=1500)
    ctx.expect_mc_violation('TreeEncMC', 'TreeEncMC_bad.cfg', 'is violated')
    tree_run.check(ctx, ctx.pick(48, 600), 'TreeGenS.cfg', ['S01', 'X01'])


@check('X01')
def x01(ctx):
    """TLA+ (TLC): Restore.tla (selection, exclusion, overlay) model checked on all small trees;
    generated restores of real snapshots over existing files validated against it | argument lists
    of up to 5, exclusion patterns of five kinds, owner mappings, local and remote"""
    import tree_run
    ctx.model_check('RestoreMC', 'RestoreMC.cfg', timeout=800)
    ctx.expect_mc_violation('RestoreMC', 'RestoreMC_bad.cfg', 'is violated')
    tree_run.check(ctx, ctx.pick(36, 500), 'TreeGen.cfg', ['X01'])


@check('D01')
def d01(ctx):
    """TLA+ (TLC): Store.tla (files, names, references) model checked for kills at every step, with five
    wrong orders rejected; real commands killed at their file operations and the logs of undisturbed
    ones validated against it | kill points sampled over save, split, get, tag, rm, prune-older, gc,
    index, midx, bloom and init, local and remote, also within writes; not within git commands"""
    import crash_run
    store_mc(ctx)
    runs = crash_run.prepare(ctx, ctx.pick(24, 200))
    crash_run.check_steps(ctx, runs, ['D01'])
    crash_run.check_kills(ctx, runs, ctx.pick(7, 30))


@check('D02')
def d02(ctx):
    """TLA+ (TLC): Store.tla model checked for power failures at every step; file operations and syncs
    recorded from real commands validated against it step by step | save, split, get, tag, rm,
    prune-older, gc, midx, bloom, local and remote; references are assumed to reach the disk in order"""
    import crash_run
    store_mc(ctx)
    runs = crash_run.prepare(ctx, ctx.pick(24, 400))
    crash_run.check_steps(ctx, runs, ['D02'])


@check('S03')
def s03(ctx):
    """TLA+ (TLC): Select.tla (what's indexed and saved, and where it appears) model checked, with an
    overlooked exclusion of parents rejected; generated histories of index and save runs validated
    against it | names, paths, regular expressions and files of them; --strip, --strip-path, --graft,
    --smaller; ambiguous or interleaved graft points may be refused"""
    import select_run
    ctx.model_check('SelectMC', 'SelectMC.cfg', timeout=600)
    ctx.expect_mc_violation('SelectMC', 'SelectMC_bad.cfg', 'NoneBelow is violated')
    select_run.check(ctx, ctx.pick(56, 900))


@check('T01')
def t01(ctx):
    """TLA+ (TLC): Get.tla (what each method does to the destination's references) model checked with
    the transfer's steps and kills, with three wrong orders rejected; generated histories of gets between
    two repositories validated against it | all methods, up to three targets per get, local and remote
    sources and destinations, missing objects; --rewrite and --repair are T02 and T03"""
    import get_run
    ctx.model_check('GetMC', 'GetMC.cfg', timeout=600)
    ctx.parallel(lambda b: ctx.expect_mc_violation('GetMC', f'GetMC_bad{b}.cfg', "violated"), range(1, 4))
    get_run.check(ctx, ctx.pick(60, 800))


@check('C01')
def c01(ctx):
    """TLA+ (TLC): Conc.tla (what commands do to references, one after the other) model checked against
    processes that read, work and compare-and-swap, with two wrong ways rejected; real commands stopped
    and continued at generated points of their file operations (and git's), validated to be serializable |
    two or three of save, split, get, tag, rm, prune-older, midx, bloom at a time, local and remote; up to two
    interruptions each; not gc"""
    import conc_run
    ctx.model_check('ConcMC', 'ConcMC.cfg' if ctx.quick else 'ConcMC_deep.cfg', timeout=1500)
    ctx.parallel(lambda b: ctx.expect_mc_violation('ConcMC', f'ConcMC_bad{b}.cfg', 'is violated'), (1, 2))
    conc_run.check(ctx, ctx.pick(24, 150), ctx.pick(4, 8), ctx.pick(4, 16))


def store_mc(ctx):
    ctx.model_check('StoreMC', 'StoreMC.cfg' if ctx.quick else 'StoreMC_deep.cfg', timeout=1500)
    ctx.parallel(lambda b: ctx.expect_mc_violation('StoreMC', f'StoreMC_bad{b}.cfg', 'is violated'), range(1, 6))



@check('O01')
def o01(ctx):
    """TLA+ (TLC): Lookup.tla (indexes, midxes and filters that come, go and become stale, and
    readers) model checked; generated histories of real directories of made-up indexes, with the
    readers' answers and the commands' results, validated against it | up to 8 packs of up to 5000
    objects with extreme, clustered and shared ids; about 45 objects are asked for per look"""
    import lookup_run
    ctx.model_check('LookupMC', 'LookupMC.cfg' if ctx.quick else 'LookupMC_deep.cfg', timeout=800)
    ctx.expect_mc_violation('LookupMC', 'LookupMC_bad1.cfg', 'is violated')
    ctx.expect_mc_violation('LookupMC', 'LookupMC_bad2.cfg', 'is violated')
    lookup_run.check(ctx, ctx.pick(110, 2500))


@check('F01')
def f01(ctx):
    """TLA+ (TLC): Fsck.tla (what fsck says about and does to packs in every combination of damage to
    pack, index and recovery data) model checked; generated damage and requests run against real
    fsck and validated against it | 3 packs of up to 150 kB, 12 kinds of damage, up to 3 runs in a
    row; par2 itself is trusted for damage well within or beyond its redundancy"""
    import fsck_run
    ctx.model_check('FsckMC', 'FsckMC.cfg' if ctx.quick else 'FsckMC_deep.cfg', timeout=800)
    ctx.expect_mc_violation('FsckMC', 'FsckMC_bad.cfg', 'is violated')
    fsck_run.check(ctx, ctx.pick(110, 2000))


@check('H01')
def h01(ctx):
    """TLA+ (TLC): Split.tla (the rolling sum and what a chunking is; a splitter with a limited
    buffer and arbitrary reads, and locality) model checked; the chunks real splitters give for
    generated streams and arrivals computed anew by the specification | whole streams of up to 60 kB
    exactly; of up to 30 MB at a sample of about 250 places each; records likewise"""
    import split_run
    ctx.model_check('SplitMC', 'SplitMC.cfg' if ctx.quick else 'SplitMC_deep.cfg', timeout=1500)
    ctx.parallel(lambda b: ctx.expect_mc_violation('SplitMC', f'SplitMC_bad{b}.cfg', 'is violated'), (1, 2, 3))
    split_run.check(ctx, ctx.pick(60, 1200), ctx.pick(5, 60))


@check('H02')
def h02(ctx):
    """TLA+ (TLC): Split.tla (chunks, and the tree they're stored as) model checked; generated splits
    (modes, sources, options, local and remote) and joins run for real: the stored trees, ids, commits,
    refs, output and joined content validated against it | data of up to 150 kB and 1800 chunks"""
    import join_run
    ctx.model_check('SplitMC', 'SplitMC.cfg' if ctx.quick else 'SplitMC_deep.cfg', timeout=1500)
    ctx.expect_mc_violation('SplitMC', 'SplitMC_bad1.cfg', 'is violated')
    join_run.check(ctx, ctx.pick(40, 700))


if __name__ == '__main__':
    level, fn = CHECKS[sys.argv[1]]
    vlib.main(sys.argv[1], level, fn)
