//! What each property's check runs and which observations violate it.

use crate::gen::Profile;

const BASE: Profile = Profile {
    prop: "",
    accept: &[],
    kinds: [1, 3, 4, 3],
    kinds2: [1, 0, 0, 0],
    cached: 0,
    sync: 15,
    ops: &[],
    clients: (1, 4),
    steps: (1, 6),
    graphs: 2,
    chain: (1, 4),
    setup_rollups: 0,
    setup_packs: 0,
    faults: [1, 1, 1, 1],
    models: [2, 2, 3],
    cancel: 0,
    audit: 1,
    depth: (1, 2),
    variants: 4,
    big: 0,
    odd: 8,
    edits: (1, 10),
    lru: &[0, 1, 1, 10],
    motif: 25,
    motifs: &[("again", 1)],
};

pub const LAYER_BAD: &[&str] = &["content", "missing"];

pub fn profile(id: &str) -> Option<Profile> {
    Some(match id {
        "P01" => Profile {
            prop: "P01",
            accept: &[
                "content", "missing", "head-content", "ids", "op-err:read", "op-err:lookup", "panic", "meta", "abort",
            ],
            cached: 0,
            ops: &[
                ("build", 8), ("check", 10), ("load", 2), ("hold", 3), ("checkheld", 6), ("release", 1), ("head", 2),
                ("set", 2), ("advance", 3), ("rollup", 3), ("rollup_upto", 2), ("imprecise", 2), ("reopen", 1), ("create", 1),
            ],
            setup_rollups: 15,
            chain: (2, 6),
            faults: [2, 0, 1, 3],
            models: [1, 0, 0],
            depth: (0, 2),
            audit: 1,
            variants: 3,
            edits: (1, 14),
            odd: 6,
            motifs: &[("again", 1), ("rollups", 2), ("evict", 1)],
            ..BASE
        },
        "P02" => Profile {
            prop: "P02",
            accept: &["missing", "content", "op-err:lookup", "op-err:read", "ids", "changes", "changes-err", "panic", "open-err", "import-content", "squash-content", "merge-content", "abort"],
            kinds: [0, 3, 3, 4],
            kinds2: [0, 2, 2, 2],
            ops: &[
                ("build", 10), ("advance", 3), ("squash", 2), ("squash_upto", 1), ("merge", 2), ("export", 2), ("import", 4),
                ("rollup", 2), ("rollup_upto", 1), ("create", 1), ("check", 1),
            ],
            setup_packs: 40,
            faults: [1, 0, 0, 0],
            models: [1, 3, 4],
            depth: (1, 3),
            variants: 8,
            audit: 1,
            sync: 8,
            edits: (1, 6),
            motif: 30,
            motifs: &[("again", 1), ("imports", 2)],
            ..BASE
        },
        "P03" => Profile {
            prop: "P03",
            accept: &["lin", "durable-label", "label-garbage", "label-err", "head-err", "labels-err", "open-err", "panic", "labels-list", "abort"],
            kinds: [0, 2, 2, 2],
            cached: 25,
            ops: &[
                ("create", 6), ("set", 8), ("force", 5), ("forcev", 5), ("delete", 5), ("clear", 2), ("head", 3), ("open", 1),
                ("labels", 1), ("advance", 1),
            ],
            graphs: 3,
            chain: (1, 3),
            faults: [1, 0, 0, 0],
            models: [1, 3, 4],
            depth: (1, 3),
            variants: 8,
            audit: 16,
            sync: 8,
            odd: 0,
            edits: (1, 3),
            motifs: &[("again", 2), ("aba", 2)],
            ..BASE
        },
        "P04" => Profile {
            prop: "P04",
            accept: &["lin", "durable-label", "label-garbage", "label-err", "head-err", "labels-err", "open-err", "panic", "labels-list", "lock-left", "abort"],
            kinds: [1, 2, 2, 2],
            cached: 30,
            ops: &[
                ("create", 6), ("set", 8), ("force", 5), ("forcev", 5), ("delete", 4), ("clear", 3), ("head", 8), ("open", 3),
                ("labels", 5), ("reopen", 1),
            ],
            graphs: 6,
            chain: (1, 3),
            faults: [4, 3, 2, 2],
            models: [2, 2, 3],
            depth: (1, 2),
            variants: 7,
            audit: 8 | 16,
            sync: 10,
            odd: 0,
            edits: (1, 3),
            clients: (1, 5),
            motifs: &[("again", 2), ("aba", 1)],
            ..BASE
        },
        "P05" => Profile {
            prop: "P05",
            accept: &["lin", "label-garbage", "label-err", "head-err", "panic", "abort"],
            kinds: [3, 2, 2, 2],
            cached: 25,
            ops: &[
                ("create", 4), ("set", 8), ("force", 5), ("forcev", 7), ("delete", 3), ("clear", 2), ("head", 6), ("open", 1),
                ("advance", 4), ("labels", 1), ("rollup", 1), ("rollup_upto", 2),
            ],
            graphs: 2,
            setup_rollups: 20,
            chain: (2, 4),
            faults: [1, 0, 1, 5],
            models: [1, 0, 0],
            depth: (0, 1),
            variants: 8,
            audit: 16,
            sync: 20,
            odd: 0,
            edits: (1, 3),
            clients: (2, 5),
            motif: 50,
            motifs: &[("again", 1), ("aba", 6)],
            ..BASE
        },
        "P06" => Profile {
            prop: "P06",
            accept: &["head-content", "head-missing", "head-err", "label-garbage", "missing", "content", "op-err:lookup", "panic", "abort"],
            kinds: [1, 3, 3, 3],
            kinds2: [1, 2, 2, 2],
            cached: 10,
            ops: &[
                ("advance", 10), ("head", 8), ("build", 2), ("set", 3), ("force", 2), ("create", 2), ("squash", 1), ("squash_upto", 1), ("rollup", 2),
                ("reopen", 1), ("delete", 1), ("merge", 1), ("export", 1), ("import", 2),
            ],
            graphs: 2,
            setup_packs: 25,
            chain: (0, 3),
            faults: [4, 1, 1, 2],
            models: [1, 3, 4],
            depth: (1, 3),
            variants: 6,
            audit: 1,
            edits: (1, 5),
            motifs: &[("again", 1), ("aba", 1), ("imports", 2)],
            ..BASE
        },
        "P07" => Profile {
            prop: "P07",
            accept: &["partial", "vanished", "content", "missing", "phantom", "op-err:lookup", "op-err:commit", "panic", "import-content", "squash-content", "merge-content", "builder", "lock-left", "abort"],
            kinds: [1, 3, 3, 3],
            kinds2: [1, 1, 1, 1],
            ops: &[
                ("build", 12), ("pending", 12), ("squash", 2), ("merge", 1), ("advance", 2), ("absent", 1), ("shared", 2), ("check", 2),
                ("export", 1), ("import", 2), ("reopen", 1),
            ],
            setup_packs: 15,
            faults: [4, 3, 1, 2],
            models: [2, 2, 3],
            cancel: 10,
            depth: (1, 2),
            variants: 7,
            audit: 1 | 8,
            chain: (0, 3),
            edits: (1, 6),
            clients: (1, 5),
            motifs: &[("again", 2), ("imports", 1)],
            ..BASE
        },
        "P08" => Profile {
            prop: "P08",
            accept: &["content", "missing", "ids", "changes", "changes-err", "op-err:rollup", "op-err:lookup", "op-err:read", "panic", "head-content", "head-err", "meta", "lock-left", "layers-list", "abort"],
            ops: &[
                ("rollup", 8), ("rollup_upto", 8), ("imprecise", 6), ("check", 5), ("load", 2), ("build", 3), ("hold", 2), ("checkheld", 4),
                ("reopen", 2), ("squash", 1), ("squash_upto", 1), ("delta", 1), ("list", 1),
            ],
            setup_rollups: 25,
            chain: (2, 7),
            faults: [4, 2, 1, 3],
            models: [2, 2, 3],
            cancel: 5,
            depth: (1, 2),
            variants: 5,
            audit: 3,
            motif: 35,
            motifs: &[("again", 1), ("rollups", 3)],
            ..BASE
        },
        "P09" => Profile {
            prop: "P09",
            accept: &["squash-content", "merge-content", "content", "missing", "ids", "changes", "changes-err", "op-err:squash", "op-err:merge", "op-err:lookup", "op-err:read", "panic", "partial", "phantom", "lock-left", "abort"],
            ops: &[
                ("squash", 8), ("squash_upto", 8), ("merge", 8), ("build", 4), ("rollup", 3), ("rollup_upto", 3), ("imprecise", 2), ("check", 3),
                ("reopen", 1),
            ],
            setup_rollups: 30,
            chain: (2, 6),
            faults: [3, 2, 1, 3],
            models: [2, 2, 3],
            depth: (0, 2),
            variants: 4,
            audit: 1,
            odd: 4,
            motif: 25,
            motifs: &[("again", 1), ("merges", 2)],
            ..BASE
        },
        "P10" => Profile {
            prop: "P10",
            accept: &["pack", "import-content", "import-ghost", "content", "missing", "ids", "changes", "changes-err", "op-err:export", "op-err:import", "op-err:lookup", "op-err:read", "partial", "phantom", "panic", "layers-list", "op-err:commit", "lock-left", "abort"],
            kinds: [2, 3, 3, 3],
            kinds2: [2, 3, 3, 3],
            ops: &[
                ("export", 6), ("import", 14), ("build", 3), ("check", 4), ("rollup", 2), ("rollup_upto", 2), ("squash", 1), ("reopen", 1),
                ("load", 1), ("pending", 1), ("list", 1),
            ],
            setup_packs: 90,
            setup_rollups: 15,
            chain: (1, 5),
            faults: [4, 3, 1, 2],
            models: [2, 2, 3],
            depth: (0, 2),
            variants: 5,
            audit: 1 | 4,
            motif: 40,
            motifs: &[("again", 1), ("imports", 4)],
            ..BASE
        },
        "P11" => Profile {
            prop: "P11",
            accept: &[
                "content", "ids", "changes", "changes-err", "missing", "vanished", "partial", "phantom", "head-content", "head-missing", "head-err",
                "label-garbage", "label-err", "labels-list", "labels-err", "layers-list", "squash-content", "merge-content",
                "import-content", "import-ghost", "apply-content", "builder", "builder-content", "lock-left", "open-err", "panic",
                "op-err:lookup", "op-err:commit", "op-err:read", "op-err:rollup", "op-err:squash", "op-err:merge", "op-err:export",
                "op-err:import", "op-err:apply", "op-err:open", "lin", "durable-label", "deadlock", "livelock", "hang", "abort",
            ],
            kinds: [0, 4, 3, 3],
            kinds2: [1, 1, 1, 1],
            cached: 15,
            ops: &[
                ("build", 8), ("advance", 4), ("check", 5), ("head", 4), ("create", 2), ("set", 3), ("force", 2), ("forcev", 2), ("delete", 2),
                ("labels", 2), ("rollup", 3), ("rollup_upto", 2), ("imprecise", 1), ("squash", 2), ("squash_upto", 1), ("merge", 2),
                ("export", 2), ("import", 3), ("delta", 1), ("diff", 1), ("shared", 1), ("list", 2), ("load", 3), ("reopen", 1), ("clear", 1),
                ("pending", 1),
            ],
            setup_packs: 25,
            setup_rollups: 10,
            faults: [0, 5, 2, 0],
            depth: (0, 2),
            variants: 8,
            audit: 1 | 8,
            edits: (1, 6),
            motif: 40,
            motifs: &[("again", 3), ("rollups", 1), ("imports", 1), ("evict", 1), ("aba", 1), ("merges", 4)],
            ..BASE
        },
        "P12" => Profile {
            prop: "P12",
            accept: &["memory", "vanished", "content", "ids", "missing", "changes", "changes-err", "meta", "head-content", "head-err", "head-missing", "op-err:lookup", "op-err:read", "op-err:rollup", "op-err:commit", "panic", "deadlock", "livelock", "hang", "partial", "abort"],
            kinds: [0, 0, 5, 1],
            cached: 0,
            ops: &[
                ("build", 6), ("check", 8), ("load", 8), ("hold", 2), ("checkheld", 3), ("release", 2), ("rollup", 3), ("rollup_upto", 2),
                ("reopen", 2), ("advance", 2), ("head", 2), ("absent", 1), ("pending", 1), ("squash", 1), ("create", 1),
            ],
            faults: [2, 3, 2, 4],
            models: [1, 0, 0],
            cancel: 12,
            depth: (0, 2),
            variants: 4,
            audit: 1 | 32,
            big: 50,
            chain: (1, 6),
            setup_rollups: 10,
            lru: &[0, 1, 1, 1, 2],
            sync: 8,
            motif: 50,
            motifs: &[("again", 1), ("rollups", 1), ("evict", 5)],
            ..BASE
        },
        "P13" => Profile {
            prop: "P13",
            accept: &[
                "content", "ids", "changes", "changes-err", "missing", "vanished", "partial", "phantom", "head-content", "head-missing", "head-err",
                "label-garbage", "label-err", "labels-list", "labels-err", "layers-list", "squash-content", "merge-content",
                "import-content", "import-ghost", "apply-content", "builder", "builder-content", "lock-left", "open-err", "panic",
                "op-err:lookup", "op-err:commit", "op-err:read", "op-err:rollup", "op-err:squash", "op-err:merge", "op-err:export",
                "op-err:import", "op-err:apply", "op-err:open", "lin", "durable-label", "deadlock", "livelock", "hang", "abort",
            ],
            kinds: [1, 3, 4, 3],
            kinds2: [1, 1, 1, 1],
            cached: 40,
            sync: 0,
            ops: &[
                ("build", 8), ("advance", 4), ("check", 4), ("head", 5), ("create", 3), ("set", 5), ("force", 3), ("forcev", 3), ("delete", 3),
                ("labels", 2), ("rollup", 3), ("rollup_upto", 2), ("squash", 2), ("merge", 2), ("export", 2), ("import", 3), ("delta", 1),
                ("load", 3), ("clear", 2), ("imprecise", 1), ("squash_upto", 1), ("list", 1),
            ],
            setup_packs: 20,
            faults: [1, 0, 1, 6],
            models: [1, 0, 0],
            cancel: 55,
            depth: (0, 1),
            variants: 6,
            audit: 1,
            edits: (1, 6),
            motif: 35,
            motifs: &[("again", 3), ("aba", 1), ("imports", 1), ("evict", 1)],
            ..BASE
        },
        "P14" => Profile {
            prop: "P14",
            accept: &["builder", "builder-content", "content", "missing", "changes", "changes-err", "ids", "panic", "deadlock", "livelock", "hang", "op-err:commit", "abort"],
            kinds: [3, 2, 2, 2],
            sync: 35,
            ops: &[("shared", 12), ("build", 3), ("check", 2), ("delta", 1)],
            clients: (1, 3),
            steps: (1, 4),
            chain: (1, 3),
            faults: [1, 1, 0, 6],
            models: [1, 0, 0],
            depth: (0, 1),
            variants: 5,
            audit: 2,
            ..BASE
        },
        "P15" => Profile {
            prop: "P15",
            accept: &["apply-content", "content", "missing", "changes", "changes-err", "ids", "op-err:apply", "op-err:commit", "op-err:read", "panic", "deadlock", "livelock", "hang", "abort"],
            kinds: [3, 2, 2, 2],
            sync: 20,
            ops: &[
                ("delta", 10), ("diff", 10), ("build", 3), ("rollup", 2), ("rollup_upto", 2), ("imprecise", 1), ("squash", 1), ("squash_upto", 1), ("check", 1),
                ("reopen", 1),
            ],
            setup_rollups: 20,
            chain: (3, 7),
            faults: [1, 1, 1, 4],
            models: [1, 0, 0],
            depth: (0, 1),
            variants: 4,
            audit: 2,
            edits: (1, 16),
            odd: 5,
            ..BASE
        },
        "P16" => Profile {
            prop: "P16",
            accept: &["deadlock", "livelock", "hang", "lock-left"],
            kinds: [3, 3, 4, 3],
            kinds2: [1, 1, 1, 1],
            cached: 20,
            sync: 30,
            ops: &[
                ("build", 6), ("advance", 6), ("check", 3), ("head", 5), ("create", 2), ("set", 4), ("force", 6), ("forcev", 2), ("delete", 2),
                ("labels", 2), ("rollup", 4), ("rollup_upto", 3), ("imprecise", 2), ("squash", 3), ("squash_upto", 2), ("merge", 3),
                ("export", 3), ("import", 4), ("delta", 3), ("diff", 2), ("shared", 3), ("list", 1), ("load", 5), ("clear", 1), ("sleep", 2), ("pending", 1),
            ],
            setup_packs: 30,
            setup_rollups: 10,
            faults: [0, 2, 2, 6],
            cancel: 10,
            depth: (0, 1),
            variants: 6,
            audit: 0,
            clients: (2, 6),
            motifs: &[("aba", 1), ("rollups", 1), ("imports", 1), ("evict", 1)],
            ..BASE
        },
        "P17" => Profile {
            prop: "P17",
            accept: &["changes", "changes-err", "content", "missing", "op-err:rollup", "op-err:lookup", "op-err:read", "panic", "import-content", "apply-content", "squash-content", "abort"],
            kinds2: [1, 1, 1, 1],
            ops: &[
                ("build", 8), ("check", 8), ("checkheld", 4), ("hold", 2), ("rollup", 4), ("rollup_upto", 4), ("imprecise", 3), ("squash_upto", 2), ("squash", 1),
                ("delta", 2), ("export", 2), ("import", 3), ("reopen", 1),
            ],
            setup_rollups: 30,
            setup_packs: 25,
            chain: (2, 6),
            faults: [2, 1, 0, 3],
            models: [1, 1, 1],
            depth: (0, 2),
            variants: 3,
            audit: 3,
            odd: 5,
            edits: (1, 16),
            motif: 15,
            motifs: &[("again", 1), ("rollups", 1)],
            ..BASE
        },
        "P18" => Profile {
            prop: "P18",
            accept: &["ids", "content", "missing", "meta", "op-err:rollup", "op-err:lookup", "op-err:read", "panic", "import-content", "squash-content", "merge-content", "apply-content", "abort"],
            kinds2: [1, 1, 1, 1],
            ops: &[
                ("build", 8), ("check", 10), ("checkheld", 4), ("hold", 2), ("rollup", 4), ("rollup_upto", 4), ("imprecise", 3), ("squash_upto", 2), ("squash", 2),
                ("merge", 2), ("export", 2), ("import", 3), ("reopen", 1),
            ],
            setup_rollups: 30,
            setup_packs: 25,
            chain: (2, 6),
            faults: [2, 1, 0, 3],
            models: [1, 1, 1],
            depth: (0, 2),
            variants: 3,
            audit: 1 | 32,
            odd: 3,
            edits: (1, 16),
            motif: 15,
            motifs: &[("again", 1), ("rollups", 1)],
            ..BASE
        },
        "P19" => Profile {
            prop: "P19",
            accept: &["labels-list", "labels-err", "layers-list", "lin", "durable-label", "panic", "phantom", "abort"],
            kinds: [2, 3, 3, 3],
            kinds2: [1, 1, 1, 1],
            cached: 20,
            ops: &[
                ("labels", 8), ("list", 8), ("create", 5), ("delete", 4), ("build", 6), ("rollup", 2), ("rollup_upto", 1), ("export", 1), ("import", 3),
                ("advance", 2), ("squash", 1), ("merge", 1), ("open", 2), ("reopen", 1),
            ],
            setup_packs: 30,
            graphs: 5,
            faults: [4, 3, 1, 2],
            models: [1, 2, 3],
            depth: (1, 2),
            variants: 6,
            audit: 4,
            odd: 0,
            edits: (1, 5),
            motifs: &[("again", 1), ("aba", 1), ("imports", 1)],
            ..BASE
        },
        _ => return None,
    })
}
pub const ALL: [&str; 19] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18",
    "P19",
];
