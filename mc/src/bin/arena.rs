//! Plain arena.

use mc::w_arena::*;
use mc::*;

fn cfg(groups: u32, max_cap: usize, ages: bool) -> Cfg {
    Cfg { groups, max_cap, ages, full: true }
}

const MOST: u32 = G_BASE | G_TRY | G_REPL | G_SWAP | G_BULK | G_SHRINK | G_RESERVE | G_DRAIN | G_CLONE;

fn main() {
    run(|c| match c.prop.as_str() {
        "A01" => {
            huge::arena(c);
            access::arena::<PD>(c, "direct access, gen");
            access::arena::<PN>(c, "direct access, nogen");
            access::arena::<P88>(c, "direct access, 8 bit");
            c.explore::<ArenaWorld<PD>>("arena gen", cfg(MOST, c.q(6, 7), true), deep());
            c.explore::<ArenaWorld<PN>>("arena nogen", cfg(MOST, c.q(6, 7), true), deep());
            c.explore::<ArenaWorld<P88>>("arena 8 bit", cfg(MOST, c.q(4, 5), true), deep());
            c.explore::<ArenaWorld<PD>>("arena gen, larger", cfg(MOST & !G_SWAP, c.q(8, 9), false), deep());
            c.explore::<ArenaWorld<PD>>("arena gen, every history", cfg(MOST, 4, false), all_to(c.q(5, 6)));
            c.explore::<ArenaWorld<PN>>("arena nogen, every history", cfg(MOST, 4, false), all_to(c.q(5, 6)));
            let f = |_| cfg(MOST, 1 << 20, false);
            large::<ArenaWorld<PD>>(c, "large arenas, gen", f, sizes(c), 1, |_, _, _| Ok(()));
            large::<ArenaWorld<PN>>(c, "large arenas, no gen", f, sizes(c), 1, |_, _, _| Ok(()));
        }
        _ => (),
    })
}
