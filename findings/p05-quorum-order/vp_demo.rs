//! A value is taken to be granted by a quorum although a minority has it.
use std::sync::Arc;
use std::time::Duration;

use maplit::btreeset;

use crate::engine::testing::UTConfig;
use crate::engine::Engine;
use crate::progress::Inflight;
use crate::progress::Progress;
use crate::progress::VecProgress;
use crate::raft_state::LogStateReader;
use crate::testing::log_id;
use crate::type_config::TypeConfigExt;
use crate::utime::Leased;
use crate::EffectiveMembership;
use crate::Membership;
use crate::MembershipState;
use crate::Vote;

#[test]
fn granted_value_is_held_by_a_quorum() {
    let quorum_set: Vec<u64> = vec![0, 1, 2, 3, 4];
    let mut progress = VecProgress::<u64, u64, u64, _>::new(quorum_set, [], || 0);
    let _ = progress.update(&0, 7);
    let _ = progress.update(&1, 5);
    let _ = progress.update(&1, 9);
    let g = *progress.update(&2, 8).unwrap();
    // stored: 0 -> 7, 1 -> 9, 2 -> 8, 3 -> 0, 4 -> 0
    let n = (0..5u64).filter(|id| *progress.get(id) >= g).count();
    assert!(n >= 3, "granted {} but only {} of 5 voters have it", g, n);
    assert_eq!(7, g);
}

#[test]
fn every_short_history() {
    // Every history of 5 updates of 5 voters, each increasing the value of a voter, to at most 3.
    fn step(p: &VecProgress<u64, u64, u64, Vec<u64>>, depth: u64) {
        if depth == 0 {
            return;
        }
        for id in 0..5u64 {
            let cur = *p.get(&id);
            for v in cur + 1..=3 {
                let mut q = p.clone();
                let g = *q.update(&id, v).unwrap();
                let mut values = (0..5u64).map(|i| *q.get(&i)).collect::<Vec<_>>();
                values.sort();
                assert_eq!(values[2], g, "the median of {:?}", values);
                step(&q, depth - 1);
            }
        }
    }
    let p = VecProgress::<u64, u64, u64, _>::new(vec![0, 1, 2, 3, 4], [], || 0);
    step(&p, 5);
}

#[test]
fn a_log_on_3_of_7_voters_is_not_committed() {
    let m = || Membership::<UTConfig>::new(vec![btreeset! {1,2,3,4,5,6,7}], None);
    let mut eng = Engine::<UTConfig>::testing_default(0);
    eng.state.enable_validation(false);
    eng.config.id = 1;
    eng.state.vote = Leased::new(UTConfig::<()>::now(), Duration::from_millis(500), Vote::new_committed(2, 1));
    eng.state.membership_state = MembershipState::new(
        Arc::new(EffectiveMembership::new(Some(log_id(1, 1, 1)), m())),
        Arc::new(EffectiveMembership::new(Some(log_id(1, 1, 1)), m())),
    );
    eng.testing_new_leader();
    let mut rh = eng.replication_handler();
    for id in 1..=7 {
        rh.leader.progress.get_mut(&id).unwrap().inflight = Inflight::logs(Some(log_id(2, 1, 3)), Some(log_id(2, 1, 10)));
    }
    // The leader has stored its own logs. Then node 3 stores up to 4, node 2 up to 5, then 9.
    rh.update_matching(1, Some(log_id(2, 1, 10)));
    for (id, i) in [(2, 5), (3, 4), (3, 9), (4, 8)] {
        rh.leader.progress.get_mut(&id).unwrap().inflight = Inflight::logs(Some(log_id(2, 1, 3)), Some(log_id(2, 1, 10)));
        rh.update_matching(id, Some(log_id(2, 1, i)));
    }
    // 1: 10, 2: 5, 3: 9, 4: 8
    assert_eq!(Some(log_id(2, 1, 5)), rh.state.committed().copied());
}
