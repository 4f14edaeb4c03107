from common import REG
import r_vote, r_durable, r_commit, r_log, r_member, r_api, r_repl, r_snap, r_life, r_start, r_stop, r_order, r_metrics, r_elect, r_ids, r_flight, r_store, r_policy
