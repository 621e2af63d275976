@# The command-line tool (C18, C19, C20)

@drop utils::time_it_once
@split cli::main main_create Command::Create
@split cli::main main_insert Command::Insert
@split cli::main main_check Command::Check
@split cli::main main_show Command::Show

@mod cli
broadcast use {crate::vxe::texts, crate::vxe::path::paths, crate::vx2::outputs};
use crate::vxe::path::{named, path_of, present};
use crate::vxe::fs::{file_bytes, target, disk_ok};
/// the command line as parsed
pub uninterp spec fn cmdline() -> Args;
impl Args {
    #[verifier::external_body]
    pub fn parse() -> (r: Args) ensures r == cmdline() { unimplemented!() }
}

@fn cli::optimal_jobs
ret r
ensures r >= 1, jobs != 0 ==> r == jobs

@mod cli
/// the lines of a file
pub open spec fn lines_in(p: Path) -> Seq<Seq<u8>> { lines_of(file_bytes(p)) }
pub open spec fn paths<P: AsRef<Path>>(fs: Seq<P>) -> Seq<Path> { Seq::new(fs.len(), |i: int| *fs[i].as_ref_spec()) }
pub open spec fn s_total(ps: Seq<Path>) -> nat decreases ps.len() { if ps.len() == 0 { 0 } else { s_total(ps.drop_last()) + lines_in(ps.last()).len() } }
pub open spec fn s_sum(parts: Seq<Seq<Path>>) -> nat decreases parts.len() { if parts.len() == 0 { 0 } else { s_sum(parts.drop_last()) + s_total(parts.last()) } }
pub proof fn lemma_total_add(a: Seq<Path>, b: Seq<Path>) ensures s_total(a + b) == s_total(a) + s_total(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_total_add(a, b.drop_last()); }
}
pub proof fn lemma_sum(parts: Seq<Seq<Path>>) ensures s_sum(parts) == s_total(joined(parts)) decreases parts.len() {
    if parts.len() > 0 { lemma_sum(parts.drop_last()); lemma_total_add(joined(parts.drop_last()), parts.last()); }
}
pub proof fn lemma_sum_part(parts: Seq<Seq<Path>>, k: int) requires 0 <= k < parts.len() ensures s_sum(parts.take(k + 1)) == s_sum(parts.take(k)) + s_total(parts[k]), s_sum(parts.take(k + 1)) <= s_sum(parts) decreases parts.len() {
    assert(parts.take(k + 1).drop_last() =~= parts.take(k));
    if k + 1 < parts.len() { lemma_sum_part(parts.drop_last(), k); assert(parts.drop_last().take(k + 1) =~= parts.take(k + 1)); } else { assert(parts.take(k + 1) =~= parts); }
}
pub proof fn lemma_total_mono(ps: Seq<Path>, k: int) requires 0 <= k < ps.len() ensures s_total(ps.take(k + 1)) == s_total(ps.take(k)) + lines_in(ps[k]).len(), s_total(ps.take(k + 1)) <= s_total(ps) decreases ps.len() {
    assert(ps.take(k + 1).drop_last() =~= ps.take(k));
    if k + 1 < ps.len() { lemma_total_mono(ps.drop_last(), k); assert(ps.drop_last().take(k + 1) =~= ps.take(k + 1)); } else { assert(ps.take(k + 1) =~= ps); }
}
/// the pieces of a list of files are pieces of the list of their paths
pub open spec fn part_paths<P: AsRef<Path>>(parts: Seq<Seq<P>>) -> Seq<Seq<Path>> { Seq::new(parts.len(), |i: int| paths(parts[i])) }
pub proof fn lemma_part_paths<P: AsRef<Path>>(parts: Seq<Seq<P>>) ensures joined(part_paths(parts)) == paths(joined(parts)) decreases parts.len() {
    if parts.len() > 0 {
        lemma_part_paths(parts.drop_last());
        assert(part_paths(parts).drop_last() =~= part_paths(parts.drop_last()));
        assert(paths(joined(parts)) =~= paths(joined(parts.drop_last())) + paths(parts.last()));
    } else { assert(joined(part_paths(parts)) =~= paths(joined(parts))); }
}
/// b is a with entries added: same version, settings and user data, no entry lost
pub open spec fn grown(a: BloomFilter, b: BloomFilter) -> bool {
    &&& b.full() && b.flagged() && (a is V1) == (b is V1) && a.s_flags() == b.s_flags() && a.s_capacity() == b.s_capacity() && a.s_fpp() == b.s_fpp()
    &&& a.s_size() == b.s_size() && a.s_data() == b.s_data()
    &&& forall|e: Seq<u8>| a.member(e) ==> #[trigger] b.member(e)
}
pub open spec fn holds(b: BloomFilter, ls: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> b.member(#[trigger] ls[i]) }
pub open spec fn holds_files(b: BloomFilter, ps: Seq<Path>) -> bool { forall|i: int| 0 <= i < ps.len() ==> holds(b, lines_in(#[trigger] ps[i])) }
pub proof fn lemma_grown_trans(a: BloomFilter, b: BloomFilter, c: BloomFilter)
    requires grown(a, b), grown(b, c)
    ensures grown(a, c), forall|ls: Seq<Seq<u8>>| #[trigger] holds(b, ls) ==> holds(c, ls), forall|ps: Seq<Path>| #[trigger] holds_files(b, ps) ==> holds_files(c, ps)
{
    assert forall|ls: Seq<Seq<u8>>| #[trigger] holds(b, ls) implies holds(c, ls) by {}
    assert forall|ps: Seq<Path>| #[trigger] holds_files(b, ps) implies holds_files(c, ps) by {
        assert forall|i: int| 0 <= i < ps.len() implies holds(c, lines_in(#[trigger] ps[i])) by { assert(holds(b, lines_in(ps[i]))); }
    }
}
pub proof fn lemma_insert_grows(a: BloomFilter, d: Seq<u8>, b: BloomFilter, r: Result<bool, poppy::Error>)
    requires a.full(), a.flagged(), a.inserted(d, &b, r)
    ensures grown(a, b), r is Ok ==> b.member(d)
{
    poppy::bloom::lemma_full_insert(a, d, b, r);
    assert forall|e: Seq<u8>| a.member(e) implies #[trigger] b.member(e) by { poppy::bloom::prop_step_keeps(a, poppy::bloom::Op::Insert { d, r }, b, e); }
}

pub proof fn lemma_holds_none(b: BloomFilter, ls: Seq<Seq<u8>>) requires ls.len() == 0 ensures holds(b, ls) {}
/// one more line inserted
pub proof fn lemma_line(b0: BloomFilter, a: BloomFilter, b: BloomFilter, r: Result<bool, poppy::Error>, ls: Seq<Seq<u8>>, n: int)
    requires grown(b0, a), 0 <= n < ls.len(), a.inserted(ls[n], &b, r), r is Ok, holds(a, ls.take(n))
    ensures grown(b0, b), holds(b, ls.take(n + 1)), ls.skip(n).skip(1) == ls.skip(n + 1)
{
    lemma_insert_grows(a, ls[n], b, r); lemma_grown_trans(b0, a, b);
    assert(ls.skip(n).skip(1) =~= ls.skip(n + 1));
    assert forall|i: int| 0 <= i < n + 1 implies b.member(#[trigger] ls.take(n + 1)[i]) by { if i < n { assert(a.member(ls.take(n)[i])); } }
}
/// the threads counting the lines of the first parts
pub open spec fn counting(hs: Seq<vstd::thread::JoinHandle<(Result<usize, anyhow::Error>, Tracked<World>)>>, parts: Seq<Seq<Path>>, n: int) -> bool {
    hs.len() == n && forall|i: int, x: (Result<usize, anyhow::Error>, Tracked<World>)| 0 <= i < n && #[trigger] hs[i].predicate(x) ==> x.1@.touched().len() == 0 && (x.0 is Ok ==> x.0->Ok_0 == s_total(parts[i]))
}

@fn cli::process_file
attr #[verifier::spinoff_prover]
ret r
requires old(bf).full(), old(bf).flagged()
ensures r is Ok ==> grown(*old(bf), *final(bf)) && holds(*final(bf), lines_in(named(input@)))
@entry
let ghost vx_ls = lines_in(named(input@));
@loopbefore 0
let ghost mut vx_n: int = 0;
@loop 0
invariant 0 <= vx_n <= vx_ls.len(), $it.rest() == vx_ls.skip(vx_n), grown(*old(bf), *bf), holds(*bf, vx_ls.take(vx_n))
@loopstart 0
let ghost vx_b = *bf;
@loopend 0
proof {
    let r: Result<bool, poppy::Error> = if vx_b.inserted(vx_ls[vx_n], &*bf, Ok(true)) { Ok(true) } else { Ok(false) };
    lemma_line(*old(bf), vx_b, *bf, r, vx_ls, vx_n);
    vx_n = vx_n + 1;
}
@loopafter 0
proof { assert(vx_ls.take(vx_n) =~= vx_ls); }

@fn cli::count_lines_parallel
attr #[verifier::spinoff_prover]
world
ret r
requires s_total(paths(files@)) <= usize::MAX, old(vx_w).touched().len() == 0
ensures r is Ok ==> r->Ok_0 == s_total(paths(files@)), final(vx_w).touched().len() == 0, final(vx_w).out() == old(vx_w).out(), final(vx_w).taken() == old(vx_w).taken()
@entry
let ghost mut vx_parts = Seq::<Seq<Path>>::empty();
@loopbefore 0
let ghost vx_all = $it.rest(); let ghost mut vx_n: int = 0;
proof { vx_parts = part_paths(vx_all); lemma_part_paths(vx_all); lemma_sum(vx_parts); }
assert(joined(vx_parts) == paths(files@));
@loop 0
invariant 0 <= vx_n <= vx_all.len(), $it.rest() == vx_all.skip(vx_n), counting(handles@, vx_parts, vx_n)
@loopstart 0
let ghost vx_h = handles@;
let ghost vx_part = vx_parts[vx_n];
@loopend 0
proof {
    assert(vx_all.skip(vx_n).skip(1) =~= vx_all.skip(vx_n + 1));
    vx_n = vx_n + 1;
    assert forall|i: int, x: (Result<usize, anyhow::Error>, Tracked<World>)| 0 <= i < vx_n && #[trigger] handles@[i].predicate(x) implies x.1@.touched().len() == 0 && (x.0 is Ok ==> x.0->Ok_0 == s_total(vx_parts[i])) by { if i < vx_n - 1 { assert(handles@[i] == vx_h[i]); } }
}
@loopafter 0
assert(vx_n == vx_all.len());
@loop 1
invariant forall|i: int| 0 <= i < $i ==> #[trigger] path_of($acc@[i]) == vx_part[i], $acc@.len() == $i
@closure 0
-> (r: (Result<usize, anyhow::Error>, Tracked<World>)) ensures r.1@.touched().len() == 0, r.0 is Ok ==> r.0->Ok_0 == s_total(vx_part)
@loopbefore 2
let ghost mut vx_j: int = 0; let ghost vx_batch = $it.rest();
proof { lemma_sum_part(vx_parts, vx_n); }
@loop 2
invariant vx_w0.touched().len() == 0, 0 <= vx_j <= vx_batch.len(), $it.rest() == vx_batch.skip(vx_j), $acc == s_total(vx_part.take(vx_j))
@loopend 2
proof { assert(vx_batch.skip(vx_j).skip(1) =~= vx_batch.skip(vx_j + 1)); vx_j = vx_j + 1; }
@loopafter 2
proof { assert(vx_part.take(vx_j) =~= vx_part); }
@loopbefore 3
let ghost vx_c = $acc as int; let ghost vx_ls = $it.rest();
proof { lemma_total_mono(vx_part, vx_j); assert(vx_ls == lines_in(vx_part[vx_j])); }
@loop 3
invariant vx_w0.touched().len() == 0, $acc + $it.rest().len() == vx_c + vx_ls.len()
@loopbefore 4
let ghost mut vx_k: int = 0; let ghost vx_hs = $it.rest();
@loop 4
invariant 0 <= vx_k <= vx_hs.len(), $it.rest() == vx_hs.skip(vx_k), vx_w.touched().len() == 0, vx_w.out() == old(vx_w).out(), vx_w.taken() == old(vx_w).taken(), $acc == s_sum(vx_parts.take(vx_k))
@loopstart 4
proof { if vx_k < vx_hs.len() { lemma_sum_part(vx_parts, vx_k); } }
@loopend 4
proof { assert(vx_hs.skip(vx_k).skip(1) =~= vx_hs.skip(vx_k + 1)); vx_k = vx_k + 1; }
@loopafter 4
proof { assert(vx_parts.take(vx_k) =~= vx_parts); }

@mod cli
/// the threads inserting the lines of the first parts into copies of b
pub open spec fn inserting(hs: Seq<vstd::thread::JoinHandle<(Result<BloomFilter, anyhow::Error>, Tracked<World>)>>, b: BloomFilter, parts: Seq<Seq<Path>>, n: int) -> bool {
    hs.len() == n && forall|i: int, x: (Result<BloomFilter, anyhow::Error>, Tracked<World>)| 0 <= i < n && #[trigger] hs[i].predicate(x) ==> x.1@.touched().len() == 0 && (x.0 is Ok ==> grown(b, x.0->Ok_0) && holds_files(x.0->Ok_0, parts[i]))
}
pub open spec fn s_copies(v: Seq<BloomFilter>, b: BloomFilter, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == b }
pub open spec fn collected(v: Seq<BloomFilter>, b: BloomFilter, parts: Seq<Seq<Path>>) -> bool { v.len() <= parts.len() && forall|i: int| 0 <= i < v.len() ==> grown(b, #[trigger] v[i]) && holds_files(v[i], parts[i]) }
pub open spec fn holds_parts(b: BloomFilter, parts: Seq<Seq<Path>>, from: int) -> bool { forall|i: int| from <= i < parts.len() ==> holds_files(b, #[trigger] parts[i]) }
pub proof fn lemma_holds_joined(b: BloomFilter, parts: Seq<Seq<Path>>) requires holds_parts(b, parts, 0) ensures holds_files(b, joined(parts)) decreases parts.len() {
    if parts.len() > 0 {
        let q = parts.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies holds_files(b, #[trigger] q[i]) by { assert(q[i] == parts[i]); }
        lemma_holds_joined(b, q);
        assert(holds_files(b, parts[parts.len() - 1]));
        let a = joined(q); let l = parts.last();
        assert forall|i: int| 0 <= i < joined(parts).len() implies holds(b, lines_in(#[trigger] joined(parts)[i])) by { if i < a.len() { assert(joined(parts)[i] == a[i]); } else { assert(joined(parts)[i] == l[i - a.len()]); } }
    }
}
pub proof fn lemma_union_grows(b: BloomFilter, x: BloomFilter, y: BloomFilter, f: BloomFilter)
    requires grown(b, x), grown(b, y), x.compatible(&y), x.united(&y, &f)
    ensures grown(b, f), forall|ps: Seq<Path>| #[trigger] holds_files(x, ps) ==> holds_files(f, ps), forall|ps: Seq<Path>| #[trigger] holds_files(y, ps) ==> holds_files(f, ps)
{
    assert forall|e: Seq<u8>| x.member(e) || y.member(e) implies #[trigger] f.member(e) by {
        match (x, y, f) {
            (BloomFilter::V1(p), BloomFilter::V1(q), BloomFilter::V1(g)) => { poppy::v1::prop_union_keeps(p, q, g, e); }
            (BloomFilter::V2(p), BloomFilter::V2(q), BloomFilter::V2(g)) => { poppy::v2::prop_union_keeps(p, q, g, crate::key_hash::<crate::hash::wyhash::WyHasher>(e)); }
            _ => {}
        }
    }
    assert(grown(x, f));
    lemma_grown_trans(b, x, f);
    assert forall|ps: Seq<Path>| #[trigger] holds_files(y, ps) implies holds_files(f, ps) by {
        assert forall|i: int| 0 <= i < ps.len() implies holds(f, lines_in(#[trigger] ps[i])) by { assert(holds(y, lines_in(ps[i]))); }
    }
}

/// every part is in b or in one of the filters still to be merged
pub open spec fn covered(acc: BloomFilter, v: Seq<BloomFilter>, b: BloomFilter, parts: Seq<Seq<Path>>) -> bool {
    (forall|j: int| 0 <= j < v.len() ==> grown(b, #[trigger] v[j]))
    && forall|i: int| 0 <= i < parts.len() ==> holds_files(acc, #[trigger] parts[i]) || exists|j: int| 0 <= j < v.len() && holds_files(#[trigger] v[j], parts[i])
}
/// merging the last or the first of v
pub open spec fn merged(x: BloomFilter, v: Seq<BloomFilter>, w: Seq<BloomFilter>, f: BloomFilter) -> bool {
    v.len() > 0 && (w == v.drop_last() && x.compatible(&v.last()) && x.united(&v.last(), &f) || w == v.skip(1) && x.compatible(&v[0]) && x.united(&v[0], &f))
}
pub proof fn lemma_merged(b: BloomFilter, x: BloomFilter, v: Seq<BloomFilter>, w: Seq<BloomFilter>, f: BloomFilter, parts: Seq<Seq<Path>>)
    requires grown(b, x), covered(x, v, b, parts), merged(x, v, w, f) ensures grown(b, f), covered(f, w, b, parts)
{
    let last = w == v.drop_last() && x.compatible(&v.last()) && x.united(&v.last(), &f);
    let y = if last { v.len() - 1 } else { 0 };
    lemma_union_grows(b, x, v[y], f);
    assert forall|i: int| 0 <= i < parts.len() implies holds_files(f, #[trigger] parts[i]) || exists|j: int| 0 <= j < w.len() && holds_files(#[trigger] w[j], parts[i]) by {
        if !holds_files(x, parts[i]) {
            let j = choose|j: int| 0 <= j < v.len() && holds_files(#[trigger] v[j], parts[i]);
            if j != y { if last { assert(w[j] == v[j]); } else { assert(w[j - 1] == v[j]); } }
        }
    }
    assert forall|j: int| 0 <= j < w.len() implies grown(b, #[trigger] w[j]) by { if last { assert(w[j] == v[j]); } else { assert(w[j] == v[j + 1]); } }
}

@fn cli::parallel_insert
attr #[verifier::spinoff_prover]
world
ret r
requires bf.full(), bf.flagged(), old(vx_w).touched().len() == 0
ensures final(vx_w).touched().len() == 0, final(vx_w).out() == old(vx_w).out(), final(vx_w).taken() == old(vx_w).taken(), r is Ok ==> grown(bf, r->Ok_0) && holds_files(r->Ok_0, paths(files@)), files@.len() == 0 ==> r is Ok
@entry
let ghost mut vx_parts = Seq::<Seq<Path>>::empty(); let ghost vx_bf = bf;
@loop 0
invariant s_copies(bfs@, vx_bf, $i - $lo)
@loopbefore 1
let ghost vx_all = $it.rest(); let ghost mut vx_n: int = 0;
proof { vx_parts = part_paths(vx_all); lemma_part_paths(vx_all); }
assert(joined(vx_parts) == paths(files@));
@loop 1
invariant 0 <= vx_n <= vx_all.len(), $it.rest() == vx_all.skip(vx_n), vx_w.touched().len() == 0, vx_w.out() == old(vx_w).out(), vx_w.taken() == old(vx_w).taken(), inserting(handles@, vx_bf, vx_parts, vx_n), s_copies(bfs@, vx_bf, vx_all.len() - vx_n)
@loopstart 1
let ghost vx_h = handles@; let ghost vx_part = vx_parts[vx_n];
@loopend 1
proof {
    assert(vx_all.skip(vx_n).skip(1) =~= vx_all.skip(vx_n + 1));
    vx_n = vx_n + 1;
}
@loopafter 1
assert(vx_n == vx_all.len());
@closure 0
-> (r: (Result<BloomFilter, anyhow::Error>, Tracked<World>)) ensures r.1@.touched().len() == 0, r.0 is Ok ==> grown(vx_bf, r.0->Ok_0) && holds_files(r.0->Ok_0, vx_part)
@loopbefore 2
let ghost mut vx_j: int = 0; let ghost vx_batch = $it.rest();
@loop 2
invariant vx_w0.touched().len() == 0, 0 <= vx_j <= vx_batch.len(), $it.rest() == vx_batch.skip(vx_j), grown(vx_bf, copy), holds_files(copy, vx_part.take(vx_j))
@loopstart 2
let ghost vx_c = copy;
@loopend 2
proof {
    lemma_grown_trans(vx_bf, vx_c, copy);
    assert(vx_batch.skip(vx_j).skip(1) =~= vx_batch.skip(vx_j + 1));
    assert(holds_files(copy, vx_part.take(vx_j)));
    assert forall|i: int| 0 <= i < vx_j + 1 implies holds(copy, lines_in(#[trigger] vx_part.take(vx_j + 1)[i])) by { if i < vx_j { assert(vx_part.take(vx_j)[i] == vx_part.take(vx_j + 1)[i]); } }
    vx_j = vx_j + 1;
}
@loopafter 2
proof { assert(vx_part.take(vx_j) =~= vx_part); }
@loopbefore 3
let ghost mut vx_k: int = 0; let ghost vx_hs = $it.rest();
@loop 3
invariant 0 <= vx_k <= vx_hs.len(), $it.rest() == vx_hs.skip(vx_k), vx_w.touched().len() == 0, vx_w.out() == old(vx_w).out(), vx_w.taken() == old(vx_w).taken(), collected($acc@, vx_bf, vx_parts), $acc@.len() == vx_k
@loopend 3
proof { assert(vx_hs.skip(vx_k).skip(1) =~= vx_hs.skip(vx_k + 1)); vx_k = vx_k + 1; }
@loopbefore 4
proof {
    assert forall|i: int| 0 <= i < vx_parts.len() implies holds_files($acc, #[trigger] vx_parts[i]) || exists|j: int| 0 <= j < $it.vx_rest().len() && holds_files(#[trigger] $it.vx_rest()[j], vx_parts[i]) by {
        if i < $it.vx_rest().len() { assert(holds_files($it.vx_rest()[i], vx_parts[i])); }
    }
}
@loop 4
invariant grown(vx_bf, $acc), covered($acc, $it.vx_rest(), vx_bf, vx_parts)
@loopstart 4
let ghost vx_o = $acc; let ghost vx_v = $it.vx_rest();
@loopend 4
proof {
    lemma_merged(vx_bf, vx_o, vx_v, $it.vx_rest(), $acc, vx_parts);
}
@loopafter 4
proof { lemma_holds_joined($acc, vx_parts); }

@mod cli
/// a number of bytes with its unit
pub open spec fn amount(n: int) -> ByteSize {
    if n < 1024 { ByteSize::Bytes(n as usize) } else if n < 1048576 { ByteSize::Kilo(n as usize) } else if n < 1073741824 { ByteSize::Mega(n as usize) } else { ByteSize::Giga(n as usize) }
}
pub open spec fn version_of(b: BloomFilter) -> u8 { if b is V1 { 1 } else { 2 } }
/// o followed by what show prints about a filter
pub open spec fn properties(o: Seq<u8>, b: BloomFilter) -> Seq<u8> {
    o + str_bytes("\tversion                                  : ") + decimal(version_of(b) as int) + str_bytes("\n")
    + str_bytes("\tcapacity (desired number of elements)    : ") + decimal(b.s_capacity() as int) + str_bytes("\n")
    + str_bytes("\tn (estimated number of elements)         : ") + decimal(b.s_count() as int) + str_bytes("\n")
    + str_bytes("\tfpp (false positive probability)         : ") + shown(&b.s_fpp()) + str_bytes("\n")
    + str_bytes("\tLength of data                           : ") + shown(&amount(b.s_data().len() as int)) + str_bytes("\n")
    + str_bytes("\tSize of bloom filter                     : ") + shown(&amount(b.s_size())) + str_bytes("\n")
}

@fn cli::show_bf_properties
world
requires b.wf(), b is V1 ==> b->V1_0.bit_size <= 0x20_0000_0000_0000
ensures final(vx_w).out() == properties(old(vx_w).out(), *b), final(vx_w).same_files(&*old(vx_w))

@mod cli
/// a line of the answer of check
#[verifier::opaque]
pub open spec fn answer(b: BloomFilter, l: Seq<u8>, verify: bool, silent: bool) -> Seq<u8> {
    if verify { if b.member(l) { Seq::empty() } else { l + str_bytes(": NOK\n") } }
    else if b.member(l) && !silent { l + str_bytes("\n") } else { Seq::empty() }
}
/// what check prints for the lines ls, in order
#[verifier::opaque]
pub open spec fn checked(b: BloomFilter, ls: Seq<Seq<u8>>, verify: bool, silent: bool) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { answer(b, ls[0], verify, silent) + checked(b, ls.skip(1), verify, silent) }
}
/// what check prints for files, in order
#[verifier::opaque]
pub open spec fn checked_files(b: BloomFilter, ps: Seq<Path>, verify: bool, silent: bool) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { checked(b, lines_in(ps[0]), verify, silent) + checked_files(b, ps.skip(1), verify, silent) }
}
pub proof fn lemma_checked_add(b: BloomFilter, p: Seq<Path>, q: Seq<Path>, verify: bool, silent: bool)
    ensures checked_files(b, p + q, verify, silent) == checked_files(b, p, verify, silent) + checked_files(b, q, verify, silent)
    decreases p.len()
{ reveal_with_fuel(checked_files, 2);
    if p.len() == 0 { assert(p + q =~= q); assert(checked_files(b, q, verify, silent) =~= Seq::<u8>::empty() + checked_files(b, q, verify, silent)); }
    else {
        assert((p + q).skip(1) =~= p.skip(1) + q); lemma_checked_add(b, p.skip(1), q, verify, silent);
        assert(checked_files(b, p + q, verify, silent) =~= checked_files(b, p, verify, silent) + checked_files(b, q, verify, silent));
    }
}
/// one step through the lines, by the shape of the answer; o is what has been printed before
pub proof fn lemma_check_step(o: Seq<u8>, b: BloomFilter, ls: Seq<Seq<u8>>, verify: bool, silent: bool)
    ensures
        ls.len() == 0 ==> o + checked(b, ls, verify, silent) == o,
        ls.len() > 0 ==> {
            let l = ls[0]; let t = checked(b, ls.skip(1), verify, silent);
            o + checked(b, ls, verify, silent) == (if verify && !b.member(l) { o + l + str_bytes(": NOK\n") + t } else if !verify && b.member(l) && !silent { o + l + str_bytes("\n") + t } else { o + t })
        },
{ reveal_with_fuel(checked, 2); reveal(answer);
    if ls.len() == 0 { assert(o + checked(b, ls, verify, silent) =~= o); } else {
        let l = ls[0]; let t = checked(b, ls.skip(1), verify, silent);
        assert(checked(b, ls, verify, silent) == answer(b, l, verify, silent) + t);
        assert(o + (l + str_bytes(": NOK\n") + t) =~= o + l + str_bytes(": NOK\n") + t);
        assert(o + (l + str_bytes("\n") + t) =~= o + l + str_bytes("\n") + t);
        assert(Seq::<u8>::empty() + t =~= t);
    }
}
pub proof fn lemma_file_step(o: Seq<u8>, b: BloomFilter, ps: Seq<Path>, verify: bool, silent: bool)
    ensures
        ps.len() == 0 ==> o + checked_files(b, ps, verify, silent) == o,
        ps.len() > 0 ==> o + checked_files(b, ps, verify, silent) == o + checked(b, lines_in(ps[0]), verify, silent) + checked_files(b, ps.skip(1), verify, silent),
{ reveal_with_fuel(checked_files, 2);
    if ps.len() == 0 { assert(o + checked_files(b, ps, verify, silent) =~= o); } else {
        let t = checked_files(b, ps.skip(1), verify, silent); let c = checked(b, lines_in(ps[0]), verify, silent);
        assert(o + (c + t) =~= o + c + t);
    }
}
pub proof fn lemma_nothing_checked(verify: bool, silent: bool)
    ensures forall|w: Seq<Seq<u8>>| w.len() == 0 ==> #[trigger] joined(w) == Seq::<u8>::empty(), forall|b: BloomFilter, ps: Seq<Path>| ps.len() == 0 ==> #[trigger] checked_files(b, ps, verify, silent) == Seq::<u8>::empty(),
        forall|qs: Seq<Seq<Path>>| qs.len() == 0 ==> #[trigger] joined(qs).len() == 0
{ reveal_with_fuel(checked_files, 2);}
/// the threads checking the first parts
pub open spec fn checking(hs: Seq<vstd::thread::JoinHandle<(Result<(), anyhow::Error>, Tracked<World>)>>, b: BloomFilter, parts: Seq<Seq<Path>>, n: int, verify: bool, silent: bool) -> bool {
    hs.len() == n && forall|i: int, x: (Result<(), anyhow::Error>, Tracked<World>)| 0 <= i < n && #[trigger] hs[i].predicate(x) ==> x.1@.touched().len() == 0 && (x.0 is Ok ==> x.1@.out() == checked_files(b, parts[i], verify, silent))
}
pub broadcast proof fn lemma_full(b: BloomFilter) requires #[trigger] b.full(), b.flagged() ensures b.wf(), grown(b, b) {}
/// what was loaded is a complete filter
pub broadcast proof fn lemma_loaded(b: BloomFilter, s: Seq<u8>)
    requires #[trigger] b.decodes(s, false)
    ensures b.full(), b.flagged(), poppy::bloom::loadable(s)
{
    assert(b.s_flags().bytes()[0] == s.subrange(0, 8)[0]);
    let f = b.s_flags().bytes(); assert(f[1] <= 3); assert(f[1] == s.subrange(0, 8)[1]);
}
pub broadcast proof fn lemma_made(version: u8, cap: usize, fpp: f64, opt: OptLevel, r: Result<BloomFilter, poppy::Error>)
    requires #[trigger] poppy::bloom::made(version, cap, fpp, opt, r), r is Ok
    ensures (r->Ok_0).full(), (r->Ok_0).flagged(), (r->Ok_0).s_capacity() == cap, (r->Ok_0).s_fpp() == fpp
{
    assert((r->Ok_0).s_flags().bytes()[0] == version);
}
pub broadcast proof fn lemma_grown_loadable(a: BloomFilter, b: BloomFilter)
    requires #[trigger] grown(a, b)
    ensures poppy::bloom::loadable(b.ser()), b.full(), b.flagged()
{
    poppy::bloom::prop_round_trip(b, b);
}
pub broadcast proof fn lemma_grown_chain(a: BloomFilter, b: BloomFilter, c: BloomFilter)
    requires #[trigger] grown(a, b), #[trigger] grown(b, c)
    ensures grown(a, c)
{
    lemma_grown_trans(a, b, c);
}
pub broadcast proof fn lemma_grown_holds(a: BloomFilter, b: BloomFilter, ls: Seq<Seq<u8>>)
    requires #[trigger] grown(a, b), #[trigger] holds(a, ls)
    ensures holds(b, ls)
{}
pub broadcast group filters { lemma_full, lemma_loaded, lemma_made, lemma_grown_loadable, lemma_grown_chain, lemma_grown_holds }
pub open spec fn wanted(o: Create) -> nat { if o.dataset@.len() == 0 { o.capacity as nat } else { s_total(paths(o.dataset@)) } }
/// the only file touched holds b and nothing else, and can be loaded
pub open spec fn stored(w: World, p: Path, b: BloomFilter) -> bool {
    w.touched() =~= seq![p] && poppy::bloom::loadable(b.ser()) && exists|h: File| #[trigger] h.sink() == b.ser() && target(h) == p
}
pub open spec fn create_ok(o: Create, w: World) -> bool {
    exists|opt: OptLevel, b0: BloomFilter, b: BloomFilter| poppy::bloom::opt_byte(opt) == o.optimize && #[trigger] poppy::bloom::made(o.version, wanted(o) as usize, o.probability, opt, Ok(b0)) && #[trigger] grown(b0, b)
        && holds_files(b, paths(o.dataset@)) && stored(w, path_of(o.file), b)
}
pub open spec fn insert_ok(o: Insert, w: World) -> bool {
    exists|b0: BloomFilter, b: BloomFilter| #[trigger] b0.decodes(file_bytes(named(o.file@)), false) && #[trigger] grown(b0, b)
        && holds_files(b, paths(o.inputs@)) && (o.stdin || o.inputs@.len() == 0 ==> holds(b, lines_of(stdin_bytes()))) && stored(w, named(o.file@), b)
}
/// own output: the answers for standard input; output of the threads, put together: those for the files
pub open spec fn check_ok(o: Check, w: World) -> bool {
    exists|b: BloomFilter| #[trigger] b.decodes(file_bytes(named(o.file@)), false)
        && w.out() == (if o.stdin || o.inputs@.len() == 0 { checked(b, lines_of(stdin_bytes()), o.verify, o.silent) } else { Seq::empty() })
        && joined(w.logs()) == checked_files(b, paths(o.inputs@), o.verify, o.silent)
}
pub open spec fn show_ok(o: Show, w: World) -> bool {
    exists|b: BloomFilter| #[trigger] b.decodes(file_bytes(named(o.file@)), true) && w.logs().len() == 0
        && w.out() == properties(Seq::<u8>::empty() + str_bytes("File: ") + string_bytes(&o.file) + str_bytes("\n"), b)
}

/// the state a command starts in
pub open spec fn at_start(w: World) -> bool { w.out() == Seq::<u8>::empty() && w.logs() == Seq::<Seq<u8>>::empty() && w.touched() == Seq::<Path>::empty() && !w.taken() }
/// no requirement on a command line that asks too much memory
pub open spec fn sane(o: Create) -> bool { wanted(o) <= usize::MAX && forall|opt: OptLevel| #[trigger] poppy::bloom::affordable(o.version, wanted(o) as usize, o.probability, opt) }
pub proof fn lemma_skip0() ensures forall|s: Seq<u8>| #[trigger] s.skip(0) == s { assert forall|s: Seq<u8>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); } }

@fn cli::main_create
attr #[verifier::spinoff_prover]
world
ret r
requires at_start(*old(vx_w)), cmdline().command is Create, sane(cmdline().command->Create_0)
ensures
    r is Ok ==> create_ok(cmdline().command->Create_0, *final(vx_w)),
    disk_ok() && r is Err ==> final(vx_w).touched().len() == 0,
    present(path_of(cmdline().command->Create_0.file)) && r is Ok ==> poppy::bloom::loadable(file_bytes(path_of(cmdline().command->Create_0.file))),
    ({
        let o = cmdline().command->Create_0;
        disk_ok() && o.dataset@.len() == 0 && (o.version == 1 || o.version == 2) && crate::fpp_ok(o.probability) && o.optimize <= 3
            && (present(path_of(o.file)) ==> poppy::bloom::loadable(file_bytes(path_of(o.file)))) ==> r is Ok
    }),
@entry
broadcast use filters;
proof { lemma_skip0(); }

@fn cli::main_insert
attr #[verifier::spinoff_prover]
world
ret r
requires at_start(*old(vx_w)), cmdline().command is Insert
ensures
    r is Ok ==> insert_ok(cmdline().command->Insert_0, *final(vx_w)),
    disk_ok() && r is Err ==> final(vx_w).touched().len() == 0,
@entry
broadcast use filters;
let ghost mut vx_b0: BloomFilter = arbitrary();
proof { lemma_skip0(); }
@loopbefore 0
let ghost vx_ls = lines_of(stdin_bytes()); let ghost mut vx_n: int = 0;
proof { vx_b0 = bf; lemma_holds_none(bf, vx_ls.take(0)); }
@loop 0
invariant 0 <= vx_n <= vx_ls.len(), $it.rest() == vx_ls.skip(vx_n), grown(vx_b0, bf), holds(bf, vx_ls.take(vx_n)), vx_w.touched().len() == 0
@loopstart 0
let ghost vx_b = bf;
@loopend 0
proof {
    let r: Result<bool, poppy::Error> = if vx_b.inserted(vx_ls[vx_n], &bf, Ok(true)) { Ok(true) } else { Ok(false) };
    lemma_line(vx_b0, vx_b, bf, r, vx_ls, vx_n);
    vx_n = vx_n + 1;
}
@loopafter 0
proof { assert(vx_ls.take(vx_n) =~= vx_ls); }

@fn cli::main_show
attr #[verifier::spinoff_prover]
world
ret r
requires at_start(*old(vx_w)), cmdline().command is Show
ensures
    r is Ok ==> show_ok(cmdline().command->Show_0, *final(vx_w)),
    final(vx_w).touched().len() == 0,
@entry
proof { lemma_skip0(); }

@fn cli::main_check
attr #[verifier::spinoff_prover]
world
ret r
requires at_start(*old(vx_w)), cmdline().command is Check
ensures
    r is Ok ==> check_ok(cmdline().command->Check_0, *final(vx_w)),
    final(vx_w).touched().len() == 0,
@entry
broadcast use {lemma_full, lemma_loaded};
let ghost vx_c = cmdline().command->Check_0;
let ghost mut vx_parts = Seq::<Seq<Path>>::empty(); let ghost mut vx_f: BloomFilter = arbitrary();
proof { lemma_skip0(); lemma_nothing_checked(vx_c.verify, vx_c.silent); }
@loop 0
invariant Seq::<u8>::empty() + checked(*bf, lines_of(stdin_bytes()), o.verify, o.silent) == vx_w.out() + checked(*bf, $it.rest(), o.verify, o.silent), vx_w.touched().len() == 0, vx_w.logs().len() == 0
@loopstart 0
proof { lemma_check_step(vx_w.out(), *bf, $it.rest(), o.verify, o.silent); }
@loopafter 0
proof { let x = checked(*bf, lines_of(stdin_bytes()), o.verify, o.silent); assert(Seq::<u8>::empty() + x =~= x); }
@loopbefore 1
let ghost vx_all = $it.rest(); let ghost mut vx_n: int = 0;
proof { vx_f = bf.content(); vx_parts = part_paths(vx_all); lemma_part_paths(vx_all); }
assert(joined(vx_parts) == paths(o.inputs@));
@loop 1
invariant 0 <= vx_n <= vx_all.len(), $it.rest() == vx_all.skip(vx_n), checking(handles@, vx_f, vx_parts, vx_n, vx_c.verify, vx_c.silent)
@loopstart 1
let ghost vx_part = vx_parts[vx_n]; let ghost vx_g = vx_f;
@loopend 1
proof { assert(vx_all.skip(vx_n).skip(1) =~= vx_all.skip(vx_n + 1)); vx_n = vx_n + 1; }
@closure 0
-> (r: (Result<(), anyhow::Error>, Tracked<World>)) ensures r.1@.touched().len() == 0, r.0 is Ok ==> r.1@.out() == checked_files(vx_g, vx_part, vx_c.verify, vx_c.silent)
@loop 2
invariant vx_w0.touched().len() == 0, Seq::<u8>::empty() + checked_files(vx_g, vx_part, vx_c.verify, vx_c.silent) == vx_w0.out() + checked_files(vx_g, paths($it.rest()), vx_c.verify, vx_c.silent)
@loopstart 2
let ghost vx_rest = $it.rest();
proof {
    lemma_file_step(vx_w0.out(), vx_g, paths(vx_rest), vx_c.verify, vx_c.silent);
    if vx_rest.len() > 0 { assert(paths(vx_rest).skip(1) =~= paths(vx_rest.skip(1))); }
}
@loopafter 2
proof { let x = checked_files(vx_g, vx_part, vx_c.verify, vx_c.silent); assert(Seq::<u8>::empty() + x =~= x); }
@loopbefore 3
let ghost vx_o = vx_w0.out(); let ghost vx_ls = $it.rest();
@loop 3
invariant vx_w0.touched().len() == 0, vx_o + checked(vx_g, vx_ls, vx_c.verify, vx_c.silent) == vx_w0.out() + checked(vx_g, $it.rest(), vx_c.verify, vx_c.silent)
@loopstart 3
proof { lemma_check_step(vx_w0.out(), vx_g, $it.rest(), vx_c.verify, vx_c.silent); }
@loopbefore 4
let ghost mut vx_k: int = 0; let ghost vx_o = vx_w.out(); let ghost vx_hs = $it.rest();
@loop 4
invariant 0 <= vx_k <= vx_hs.len(), $it.rest() == vx_hs.skip(vx_k), vx_w.touched().len() == 0, vx_w.out() == vx_o, joined(vx_w.logs()) == checked_files(vx_f, joined(vx_parts.take(vx_k)), vx_c.verify, vx_c.silent)
@loopstart 4
let ghost vx_l = vx_w.logs();
@loopend 4
proof {
    assert(vx_hs.skip(vx_k).skip(1) =~= vx_hs.skip(vx_k + 1));
    assert(vx_w.logs().drop_last() =~= vx_l);
    assert(vx_parts.take(vx_k + 1).drop_last() =~= vx_parts.take(vx_k));
    lemma_checked_add(vx_f, joined(vx_parts.take(vx_k)), vx_parts[vx_k], vx_c.verify, vx_c.silent);
    vx_k = vx_k + 1;
}
@loopafter 4
proof { assert(vx_parts.take(vx_k) =~= vx_parts); }
