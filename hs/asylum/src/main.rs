//! Harnesses for `asylum` (interning)
use asylum::{
    lasso::{Key, LargeSpur, MicroSpur, MiniSpur, Spur},
    path::{PathInterner, PathKey},
    sequence::{SequenceInterner, SequenceKey},
    Interner, InternerKey,
};
use std::ops::Range;
use symrt::{assume, check, choice, cover, log, log_u64};

fn any_hash_quality() {
    #[cfg(not(feature = "real"))]
    ahash::set_mask([0, 1, u64::MAX][choice(3) as usize]);
    #[cfg(feature = "real")]
    choice(3);
}

/// Round trip and rejection of one key layout, for every usize range
fn seqkey<Inner: Key, const BITS: u32>(max_packed: u128) {
    let (start, end) = (symrt::usize(), symrt::usize());
    let len = if end > start { end - start } else { 0 };
    let fits = (len as u128) < (1u128 << BITS)
        && (((start as u128) << BITS) | len as u128) <= max_packed;
    match SequenceKey::<Inner, BITS>::try_from_impl_key(start..end) {
        Some(key) => {
            check(fits, "accepted a range that does not fit the key");
            let Range { start: s, end: e } = key.into_impl_key();
            check(s == start && e == start + len, "key does not give its range back");
            cover("accepted");
            if len > 0 {
                cover("accepted nonempty");
            }
            log_u64(s as u64);
            log_u64(e as u64);
        }
        None => {
            check(!fits, "rejected a range that fits the key");
            cover("rejected");
        }
    }
}
/// Two ranges get the same key only if they are the same range
fn seqkey_inj<Inner: Key, const BITS: u32>() {
    let (s1, l1, s2, l2) = (symrt::usize(), symrt::u8() as usize, symrt::usize(), symrt::u8() as usize);
    assume(s1 < 1 << 40 && s2 < 1 << 40);
    let k1 = SequenceKey::<Inner, BITS>::try_from_impl_key(s1..s1 + l1);
    let k2 = SequenceKey::<Inner, BITS>::try_from_impl_key(s2..s2 + l2);
    if let (Some(k1), Some(k2)) = (k1, k2) {
        cover("both keyed");
        check((k1 == k2) == (s1 == s2 && l1 == l2), "distinct ranges share a key");
    }
}

/// One step of a sequence interning history
const SEQ: usize = 3;
fn any_seq(max: u32) -> ([u8; SEQ], usize) {
    let n = choice(max + 1) as usize;
    let mut b = [0; SEQ];
    symrt::fill(&mut b[..n]);
    (b, n)
}

fn seq_history(ops: usize, max: u32) {
    any_hash_quality();
    type K = SequenceKey<Spur, 8>;
    let mut int = SequenceInterner::<u8, K>::new();
    // Reference: every sequence interned so far, in order, with its key
    let mut seen: Vec<(Vec<u8>, K)> = Vec::new();
    let mut distinct: Vec<Vec<u8>> = Vec::new();
    for _ in 0..ops {
        let (seq, key): (Vec<u8>, K) = match choice(3) {
            0 => {
                let (b, n) = any_seq(max);
                (b[..n].to_vec(), int.intern(&b[..n]))
            }
            1 => {
                // Iterative interning, possibly with pops, up to popping more
                // than was pushed
                let (b, n) = any_seq(max);
                let pops = choice(3) as usize;
                let mut want = b[..n].to_vec();
                let mut e = int.entry();
                check(e.is_empty() && e.len() == 0, "fresh entry is not empty");
                for x in &b[..n] {
                    e.push(*x);
                }
                for _ in 0..pops {
                    check(e.pop() == want.pop(), "entry pop differs from a stack's");
                }
                check(e.len() == want.len(), "entry length differs from a stack's");
                cover("entry interned");
                (want, e.intern())
            }
            _ => {
                // Abandoned entry: must leave no trace
                let before = (int.len(), int.num_items());
                let (b, n) = any_seq(max);
                let mut e = int.entry();
                for x in &b[..n] {
                    e.push(*x);
                }
                drop(e);
                check((int.len(), int.num_items()) == before, "abandoned entry left a trace");
                continue;
            }
        };
        log(&seq);
        for (old, old_key) in &seen {
            let same = old[..] == seq[..];
            if same {
                cover("repeat");
            }
            check((*old_key == key) == same, "keys are equal iff sequences are");
        }
        if !distinct.iter().any(|d| d[..] == seq[..]) {
            distinct.push(seq.clone());
        }
        seen.push((seq, key));
        for (old, old_key) in &seen {
            check(int.get(*old_key)[..] == old[..], "a key stopped designating its sequence");
        }
        check(int.len() == distinct.len(), "number of sequences");
        check(int.is_empty() == distinct.is_empty(), "emptiness");
        check(
            int.max_sequence_len() == distinct.iter().map(|d| d.len()).max(),
            "maximal sequence length",
        );
        check(
            int.num_items() == distinct.iter().map(|d| d.len()).sum::<usize>(),
            "number of items stored",
        );
    }
    let fin = int.finalize();
    for (old, old_key) in &seen {
        check(fin.get(*old_key)[..] == old[..], "a key changed meaning at finalization");
    }
}

fn item_history(n: usize) {
    any_hash_quality();
    let mut int = Interner::<u16, Spur>::new();
    let mut seen: Vec<(u16, Spur)> = Vec::new();
    let mut distinct: Vec<u16> = Vec::new();
    for _ in 0..n {
        let item = symrt::u16();
        let key = int.intern(item);
        for (old, old_key) in &seen {
            check((*old_key == key) == (*old == item), "keys are equal iff items are");
        }
        if !distinct.contains(&item) {
            distinct.push(item);
        } else {
            cover("repeat");
        }
        seen.push((item, key));
        for (old, old_key) in &seen {
            check(*int.get(*old_key) == *old, "a key stopped designating its item");
        }
        check(int.len() == distinct.len() && !int.is_empty(), "number of items");
        log_u64(key.into_usize() as u64);
    }
    let fin = int.finalize();
    for (old, old_key) in &seen {
        check(*fin.get(*old_key) == *old, "a key changed meaning at finalization");
    }
}

/// Reference normalization, straight from the documentation: absolute paths
/// only, `.` and repeated separators dropped, `..` removes the last component
/// but never the root.
fn norm(p: &[u8]) -> Option<Vec<Vec<u8>>> {
    if p.is_empty() || p[0] != b'/' {
        return None;
    }
    let mut out: Vec<Vec<u8>> = vec![b"/".to_vec()];
    let mut i = 0;
    while i < p.len() {
        let start = i;
        while i < p.len() && p[i] != b'/' {
            i += 1;
        }
        let c = &p[start..i];
        i += 1;
        if c.is_empty() || c == b"." {
        } else if c == b".." {
            if out.len() > 1 {
                out.pop();
            }
        } else {
            out.push(c.to_vec());
        }
    }
    Some(out)
}
fn comps(i: &PathInterner<MiniSpur>, k: PathKey) -> Vec<Vec<u8>> {
    i.get(k).components().map(|c| c.value().as_bytes().to_vec()).collect()
}
fn same(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a[..] == b[..])
}
fn joined(c: &[Vec<u8>]) -> Vec<u8> {
    let mut o = b"/".to_vec();
    for (i, c) in c[1..].iter().enumerate() {
        if i > 0 {
            o.push(b'/');
        }
        o.extend_from_slice(c);
    }
    o
}

/// Normalization of every path of n bytes
fn path_one(n: usize) {
    let mut b = vec![0; n];
    symrt::fill(&mut b);
    let Ok(p) = std::str::from_utf8(&b) else { return };
    let mut int = PathInterner::<MiniSpur>::new();
    let want = norm(p.as_bytes());
    match int.intern(p) {
        Ok(k) => {
            cover("absolute");
            let Some(want) = want else {
                check(false, "relative path accepted");
                return;
            };
            let got = comps(&int, k);
            for c in &got {
                log(c);
                log(b"|");
            }
            check(same(&got, &want), "components differ from lexical normalization");
            check(!got.is_empty() && got[0] == b"/", "normalized path lost its root");
            if want.len() > 2 {
                cover("two components");
            }
            // Interning the normalized form again is the identity
            let j = joined(&want);
            let again = int.intern(std::str::from_utf8(&j).unwrap());
            check(again == Ok(k), "normalization is not idempotent");
            check(int.len() == 1, "normalized form stored twice");
        }
        Err(_) => {
            cover("relative");
            check(want.is_none(), "absolute path rejected");
            check(int.is_empty() && int.num_components() == 0, "rejected path left a trace");
        }
    }
}

/// Two paths share a key exactly when they normalize to the same path; both
/// keys keep designating their path.  Components come from a pool that includes
/// an arbitrary character.
fn path_two(n: usize) {
    any_hash_quality();
    let mut mk = || {
        let mut s = vec![b'/'; 1];
        for _ in 0..n {
            match choice(4) {
                0 => s.extend_from_slice(b"./"),
                1 => s.extend_from_slice(b"../"),
                2 => s.extend_from_slice(b"/"),
                _ => {
                    let c = symrt::u8();
                    assume(c < 0x80 && c != b'/' && c != b'.' && c != 0);
                    s.push(c);
                    s.push(b'/');
                }
            }
        }
        s
    };
    let (a, b) = (mk(), mk());
    let mut int = PathInterner::<MiniSpur>::new();
    let ka = int.intern(std::str::from_utf8(&a).unwrap()).unwrap();
    let kb = int.intern(std::str::from_utf8(&b).unwrap()).unwrap();
    let (na, nb) = (norm(&a).unwrap(), norm(&b).unwrap());
    let eq = same(&na, &nb);
    if eq {
        cover("same path")
    } else {
        cover("different paths")
    }
    check((ka == kb) == eq, "keys are equal iff normalized paths are");
    check(same(&comps(&int, ka), &na) && same(&comps(&int, kb), &nb), "key designates another path");
    check(int.len() == if eq { 1 } else { 2 }, "number of paths");
    check(int.num_components() == na.len() + if eq { 0 } else { nb.len() }, "number of components");
    check(int.max_path_len() == Some(na.len().max(nb.len())), "maximal path length");
    let p = int.get(ka).to_boxed_path();
    check(p.to_str().unwrap().as_bytes() == &joined(&na)[..], "path converts to another path");
    log(p.to_str().unwrap().as_bytes());
    let fin = int.finalize();
    let f: Vec<Vec<u8>> = fin.get(kb).components().map(|c| c.value().as_bytes().to_vec()).collect();
    check(same(&f, &nb), "key changed meaning at finalization");
}

/// Interning until the keys run out: never two items for one key, never a key
/// that designates another item, and what is known stays available
fn exhaust_items() {
    let mut int = Interner::<u16, MicroSpur>::new();
    for i in 0..253u16 {
        let k = int.intern(i);
        check(k.into_usize() == i as usize && *int.get(k) == i, "early key");
    }
    let mut got: Vec<(u16, MicroSpur)> = Vec::new();
    for _ in 0..3 {
        let x = 251 + symrt::u8() as u16 % 8;
        let known = x < 253 || got.iter().any(|g| g.0 == x);
        if !known && int.len() == 255 {
            cover("exhausted");
            symrt::expect_panic(true);
        }
        let k = int.intern(x);
        symrt::expect_panic(false);
        check(int.len() <= 255, "more items than keys");
        check(*int.get(k) == x, "a key designates another item");
        check(x >= 253 || k.into_usize() == x as usize, "an item changed key");
        got.push((x, k));
        for (y, l) in &got {
            check((*y == x) == (*l == k), "two items share a key");
            check(*int.get(*l) == *y, "a key stopped designating its item");
        }
        cover(if known { "known" } else { "new" });
    }
}
fn exhaust_seqs() {
    // 3 bits of length, 5 bits of start: starts up to 31, lengths up to 7
    let mut int = SequenceInterner::<u8, SequenceKey<MicroSpur, 3>>::new();
    let mut got: Vec<(Vec<u8>, SequenceKey<MicroSpur, 3>)> = Vec::new();
    for i in 0..4u8 {
        let s = [i, i, i, i, i, i, i];
        got.push((s.to_vec(), int.intern(&s)));
    }
    for _ in 0..3 {
        let (x, n) = (symrt::u8(), choice(9) as usize);
        let s = [x; 8];
        let s = &s[..n];
        let known = got.iter().any(|g| g.0[..] == *s);
        let (start, iterative) = (int.num_items(), symrt::bool());
        // The last key value is not available
        let fits = n < 8 && start < 32 && (start << 3 | n) < 255;
        if !known && !fits {
            cover("exhausted");
            symrt::expect_panic(true);
        }
        let k = if iterative {
            let mut e = int.entry();
            for y in s {
                e.push(*y);
            }
            e.intern()
        } else {
            int.intern(s)
        };
        symrt::expect_panic(false);
        check(known || fits, "no key could be left for this sequence");
        cover(if known { "known" } else { "new" });
        got.push((s.to_vec(), k));
        for (y, l) in &got {
            check((y[..] == *s) == (*l == k), "two sequences share a key");
            check(int.get(*l)[..] == y[..], "a key stopped designating its sequence");
        }
    }
}

symrt::harnesses! {
    fn h_exhaust_items() { exhaust_items() }
    fn h_exhaust_seqs() { exhaust_seqs() }
    fn h_items_7() { item_history(7) }
    fn h_seqs_4() { seq_history(4, 2) }
    fn h_path_11() { path_one(11) }
    fn h_path_13() { path_one(13) }
    fn h_paths_4() { path_two(4) }
    fn h_seqkey_spur8() { seqkey::<Spur, 8>(u32::MAX as u128 - 1) }
    fn h_seqkey_mini4() { seqkey::<MiniSpur, 4>(u16::MAX as u128 - 1) }
    fn h_seqkey_micro3() { seqkey::<MicroSpur, 3>(u8::MAX as u128 - 1) }
    fn h_seqkey_large8() { seqkey::<LargeSpur, 8>(u64::MAX as u128 - 1) }
    fn h_seqkey_large63() { seqkey::<LargeSpur, 63>(u64::MAX as u128 - 1) }
    fn h_seqkey_inj() { seqkey_inj::<LargeSpur, 8>() }
    fn h_seqkey_inj_spur() { seqkey_inj::<Spur, 8>() }
    fn h_items_3() { item_history(3) }
    fn h_items_5() { item_history(5) }
    fn h_seqs_2() { seq_history(2, 3) }
    fn h_seqs_3() { seq_history(3, 3) }
    fn h_path_5() { path_one(5) }
    fn h_path_7() { path_one(7) }
    fn h_path_9() { path_one(9) }
    fn h_paths_2() { path_two(2) }
    fn h_paths_3() { path_two(3) }
}
fn main() {
    symrt::main(TABLE)
}
