//! C02: only counterparts are compared, first input on the left.
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::monitored::*;
use gsc_mc::node::*;
use gsc_mc::runner::*;

fn spaces(t: Tier) -> Vec<Space> {
    monitored_spaces(t, M_PAIRS)
}

fn main() {
    let _ = (Graph::new(), A::Yes);
    gsc_mc::runner::main(Check {
        id: "C02",
        level: "model_checking",
        rule: "every graph pair of each space under every listed comparator, every limit and every answer of the random source or of the user-supplied descend mode; every node carries its side and its position (the edge indexes from the root, hashed); every value comparison and every pair shown to a descend mode must have the first input on the left, the second on the right, the same position and different identities; the comparisons made are checked to be of positions of the common structure; states/transitions: those of the product search, traces: monitored executions",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space"],
        spaces,
    })
}
