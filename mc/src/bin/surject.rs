//! Surject arena.

use mc::w_surject::*;
use mc::*;

const MOST: u32 = G_INV | G_SWAP | G_REMOVE | G_REMOVE_SET | G_MUT | G_BULK | G_SHRINK | G_RESERVE | G_CLONE | G_WITH;
const SETS: u32 = G_REMOVE | G_REMOVE_SET | G_INV | G_BULK | G_SHRINK;

fn cfg(groups: u32, max_cap: usize) -> Cfg {
    Cfg { groups, max_cap, ages: false, inert: true, full: true }
}
fn light(groups: u32, max_cap: usize) -> Cfg {
    Cfg { groups, max_cap, ages: false, inert: false, full: false }
}

const AFTER: &[K] = &[
    K::InsertKey,
    K::RemoveKey,
    K::Remove,
    K::Invalidate,
    K::SwapKeys,
    K::SwapVals,
    K::Union,
    K::Get2,
    K::Compress,
    K::CompressWith,
    K::CompressRecaster,
    K::Clone,
    K::Clear,
];

/// Many keys, joined in different patterns, then one more operation at different places
fn family(c: &mut Ctx, name: &str, sizes: Vec<usize>) {
    const BUILD: u64 = 6;
    let per = BUILD * AFTER.len() as u64 * 16;
    let dec = move |x: u64, s: &[usize]| {
        let n = s[(x / per) as usize];
        let y = x % per;
        let places = [0, 1, n / 2, n - 1];
        (n, y / 16 % BUILD, AFTER[(y / 16 / BUILD) as usize], places[(y % 4) as usize], places[(y / 4 % 4) as usize])
    };
    let s2 = sizes.clone();
    c.enumerate(
        name,
        per * sizes.len() as u64,
        move |x| format!("(keys, joining pattern, operation, places): {:?}", dec(x, &s2)),
        move |x| {
            let (n, pat, k, i, j) = dec(x, &sizes);
            if i >= n || j >= n {
                return Ok(false);
            }
            let cf = if n <= 12 { cfg(MOST, 4096) } else { light(MOST, 4096) };
            let mut done = false;
            play::<SurjectWorld<PD>>(&cf, |w| {
                let mut at: Vec<u16> = vec![];
                for x in 0..n {
                    let op = match pat {
                        // two sets built by joining
                        0 if x >= 2 => Op { k: K::InsertKey, a: at[x % 2], b: 0 },
                        1 if x >= 1 => Op { k: K::InsertKey, a: at[x - 1], b: 0 },
                        _ => Op { k: K::Insert, a: 0, b: 0 },
                    };
                    w.apply(&cf, op)?;
                    at.push(w.last() as u16);
                }
                let uni = |w: &mut SurjectWorld<PD>, x: usize, y: usize| {
                    let mut ops = vec![];
                    w.ops(&Cfg { groups: 0, ..cfg(0, 0) }, &mut ops);
                    let op = Op { k: K::Union, a: at[x], b: at[y] };
                    if ops.contains(&op) {
                        w.apply(&cf, op)
                    } else {
                        Ok(())
                    }
                };
                match pat {
                    2 => (1..n).try_for_each(|x| uni(w, 0, x))?,
                    3 => (1..n).try_for_each(|x| uni(w, x, x - 1))?,
                    4 => {
                        let mut d = 1;
                        while d < n {
                            (0..n - d).step_by(2 * d).try_for_each(|x| uni(w, x, x + d))?;
                            d *= 2;
                        }
                    }
                    5 => (3..n).try_for_each(|x| uni(w, x - 3, x))?,
                    _ => (),
                }
                let mut ops = vec![];
                w.ops(&cf, &mut ops);
                for op in [Op { k, a: at[i], b: at[j] }, Op { k, a: at[i], b: 0 }, Op { k, a: 0, b: 0 }] {
                    if ops.contains(&op) && (op.b != 0 || i == j) {
                        done = true;
                        return w.apply(&cf, op);
                    }
                }
                Ok(())
            })?;
            Ok(done)
        },
    );
}

fn main() {
    run(|c| {
        match c.prop.clone().as_str() {
            "S01" => {
                huge::surject(c);
                c.explore::<SurjectWorld<PD>>("surject gen, cap 2, all operations", cfg(MOST, 2), deep());
                c.explore::<SurjectWorld<PD>>("surject gen, cap 3, all operations", cfg(MOST, 3), deep());
                c.explore::<SurjectWorld<PD>>("surject gen, cap 4, all operations", cfg(MOST, 4), deep());
                c.explore::<SurjectWorld<PN>>("surject no gen, cap 4, all operations", cfg(MOST, 4), deep());
                c.explore::<SurjectWorld<P88>>("surject 8 bit, cap 3, all operations", cfg(MOST, 3), deep());
                c.explore::<SurjectWorld<PD>>("surject gen, cap 5, all operations", cfg(MOST, 5), c.q(dedup_to(10), deep()));
                c.explore::<SurjectWorld<PD>>("surject gen, cap 8, sets", light(SETS, 8), c.q(dedup_to(9), dedup_to(11)));
                c.explore::<SurjectWorld<PD>>("surject gen, cap 3, no dedup", cfg(MOST, 3), c.q(all_to(5), all_to(6)));
                large::<SurjectWorld<PD>>(c, "large surject arenas", |n| if n <= 33 { cfg(MOST, 1 << 20) } else { light(MOST, 1 << 20) }, sizes(c), 1, |_, _, _| Ok(()));
                family(c, "large sets", c.q((1..=16).chain([33]).collect(), (1..=40).chain([63, 64, 65, 130]).collect()));
            }
            "S02" => {
                let g = G_REMOVE | G_REMOVE_SET | G_BULK | G_SHRINK | G_CLONE | G_SWAP;
                c.explore::<SurjectWorld<PD>>("values, cap 4", cfg(g, 4), deep());
                c.explore::<SurjectWorld<PD>>("values, with generation ages", Cfg { ages: true, ..cfg(g | G_INV, 4) }, deep());
                c.explore::<SurjectWorld<PD>>("values, cap 6", light(G_REMOVE | G_REMOVE_SET | G_SHRINK, 6), c.q(dedup_to(12), deep()));
                c.explore::<SurjectWorld<PD>>("values, two arenas", cfg(G_REMOVE | G_REMOVE_SET | G_SHADOW | G_BULK | G_SHRINK | G_RESERVE, c.q(2, 4)), deep());
                c.explore::<SurjectWorld<PN>>("values, no gen", cfg(g, 4), deep());
                c.explore::<SurjectWorld<PD>>("values, no dedup", cfg(G_REMOVE | G_REMOVE_SET | G_BULK | G_SHRINK, 4), c.q(all_to(6), all_to(7)));
                family(c, "large sets", c.q((1..=16).collect(), (1..=40).collect()));
            }
            _ => (),
        }
    })
}
