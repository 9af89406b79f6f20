//! C01: edge requests follow the documented protocol.
use gsc_mc::graph::*;
use gsc_mc::modes::*;
use gsc_mc::monitored::*;
use gsc_mc::node::*;
use gsc_mc::runner::*;
use gsc_mc::util::*;

fn spaces(t: Tier) -> Vec<Space> {
    let mut v = monitored_spaces(t, M_PROTO);
    v.push(tuples(
        "iterator",
        "a user-supplied recursion mode that uses every sequence of Iterator methods on the edges, also after they ended; [edges,edges,methods before the last]",
        product(&[(1, t.pick(4, 6)), (1, t.pick(4, 6)), (0, t.pick(3, 4))]),
        |x, st| gsc_mc::drive::driven(x, M_PROTO, st),
    ));
    v
}

fn main() {
    let _ = (Graph::new(), A::Yes);
    gsc_mc::runner::main(Check {
        id: "C01",
        level: "model_checking",
        rule: "every graph pair of each space under every listed comparator, every limit and every answer of the random source or of the user-supplied descend mode; a monitor in every node follows the protocol automaton (not opened, next index k requested 0/1/2 times, ended, closed) and rejects any request it does not allow; states/transitions: those of the product search, traces: monitored executions",
        assumptions: &["graphs, degrees, labels and limits within the bounds of each listed space"],
        spaces,
    })
}
