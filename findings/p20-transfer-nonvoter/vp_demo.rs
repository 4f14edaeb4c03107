use std::sync::Arc;
use std::time::Duration;

use maplit::btreeset;
use openraft::raft::TransferLeaderRequest;
use openraft::Config;

use crate::fixtures::ut_harness;
use crate::fixtures::RaftRouter;

/// The leader transfers its leadership to a node that does not know yet that it was made a voter.
#[tracing::instrument]
#[test_harness::test(harness = ut_harness)]
async fn transfer_to_a_node_that_is_not_a_voter() -> anyhow::Result<()> {
    let config = Arc::new(
        Config {
            enable_tick: false,
            ..Default::default()
        }
        .validate()?,
    );
    let mut router = RaftRouter::new(config.clone());
    let _log_index = router.new_cluster(btreeset! {0,1,2}, btreeset! {3}).await?;

    let n0 = router.get_raft_handle(&0)?;
    let n3 = router.get_raft_handle(&3)?;
    let m = n0.metrics().borrow().clone();

    let req = TransferLeaderRequest::new(m.vote, 3, m.last_applied);
    n3.handle_transfer_leader(req).await?;

    tokio::time::sleep(Duration::from_millis(500)).await;
    n3.with_raft_state(|st| println!("node 3: {}", st.vote_ref())).await?;
    Ok(())
}
