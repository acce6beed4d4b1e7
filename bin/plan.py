"""Which explorations decide which property, and within which bounds.

M(binary, scenarios, quick=(p,t), thorough=(p,t), ...) : schedules of the real code
S(binary, scenarios)                                   : sequential enumerations of the real code
"""
RULE = ("schedules: every interleaving of the visible operations (atomics, mutexes, condition variables, semaphores, thread creation/exit, timed waits) "
        "of the scenario within the stated preemption / early-timeout bounds, and every combination of the scenario's data choices; "
        "sequential: every combination of the scenario's operation and data choices")
ASSUME = [
 "bounds: the threads, tasks and operations of the named scenarios, the preemption and early-timeout bounds in coverage.scenarios",
 "sequentially consistent atomics (no weak-memory reordering); data races are reported separately by vector clocks",
 "gcc-13 / libstdc++ of this sandbox; the checker's runtime (mc/, seqrt/) is trusted",
]

def M(binary, scns, quick=(2, 1), thorough=(3, 2), ref=False, budget=120, tbudget=900, extra=()):
    out = []
    for s in scns.split():
        out.append(dict(kind="mc", bin="mc_" + binary, scn=s, q=quick, t=thorough, ref=ref, qb=budget, tb=tbudget, extra=list(extra)))
    return out

def S(binary, scns, budget=120, tbudget=900):
    return [dict(kind="seq", bin="seq_" + binary, scn=s, qb=budget, tb=tbudget) for s in scns.split()]

def NET(scns, q=(2, 0), t=(2, 1), rq=(1, 1), rt=(2, 0), budget=120, tbudget=1200):
    """network scenarios: deeper without, shallower with data-race detection"""
    return M("net", scns, q, t, budget=budget, tbudget=tbudget, extra=("--no-races", "--steps", "60000")) + M("net", scns, rq, rt, budget=budget, tbudget=tbudget, extra=("--steps", "60000"))
NETASSUME = ["the network is the checker's virtual one (mcnet/): every socket/epoll/select call is one atomic step, bytes sent arrive at once and in order, descriptors are reused lowest-first; select, epoll (edge and level), short sends, would-block, end of stream, reset, refused connections and EINTR of the waits are modelled, kernel buffer pressure beyond that is not"]

PLAN = {
 "C01": dict(items=M("pool", "pool1_post2 pool1_two_posters pool2_nested pool2_nested_bulk pool1_idle pool_cross pool_cross_shutdown pool1_shutdown_race pool1_submit_shutdown", (3, 1, 1), (4, 2, 1))
                 + M("pool", "pool2_post3 pool2_two_posters pool2_bulk pool2_idle pool2_throw pool2_blocked", (2, 1), (3, 2), tbudget=1800)
                 + M("pool", "pool2_donate", (1, 1), (2, 2)) + M("pool", "pool3_donate pool3_bulk", (1, 0), (2, 1), tbudget=1800)),
 "C02": dict(items=M("execs", "wt_fifo wt_two_posters wt_nested wt_nested_shutdown wt_shutdown_race wt_submit_shutdown wt_bulk_race", (3, 1, 1), (5, 2, 1)) + M("execs", "wt_nested_mixed", (2, 1, 1), (4, 1, 1)) + M("execs", "wt_submit", (3, 1, 1), (4, 2, 1))),
 "C03": dict(items=M("execs", "te_post te_shutdown_race te_submit_shutdown te_bulk_race inline_all", (3, 1, 1), (5, 2, 1)) + M("execs", "te_bulk_nested", (2, 1, 1), (3, 2, 1))),
 "C04": dict(items=M("execs", "me_post_loop me_two_loopers me_shutdown_wakes me_shutdown_race me_bulk_race me_nested", (3, 1, 1), (5, 2, 1)) + M("execs", "me_two_waiters", (2, 0, 1), (3, 1, 1)) + M("execs", "me_program4", (0, 0), (0, 0)) + M("execs", "me_program5", (0, 0), (0, 0))),
 "C05": dict(items=M("pool", "pool1_shutdown_race pool1_submit_shutdown pool_cross_shutdown", (3, 1, 1), (5, 2, 1))
                 + M("execs", "wt_nested_shutdown wt_shutdown_race wt_submit_shutdown te_shutdown_race te_submit_shutdown me_shutdown_wakes me_shutdown_race", (3, 1, 1), (5, 2, 1))
                 + M("execs", "wt_bulk_race te_bulk_race me_bulk_race wt_drop_posts me_drop_posts", (3, 1, 1), (5, 2, 1)) + M("execs", "tp_bulk_race tp_drop_posts te_drop_posts", (2, 1, 1), (3, 2, 1))
                 + M("pool", "pool1_idle", (2, 1, 1), (3, 2, 1)) + M("coro", "submit_down manual_submit again_pool again_worker again_thread again_manual", (3, 1, 1), (4, 2, 1)) + M("coro", "bulk_worker_down bulk_thread_down resume_hop_down", (2, 1, 1), (3, 2, 1))
                 + M("coro", "bulk_pool_down", (1, 1), (2, 2), tbudget=1800)),
 "C06": dict(items=M("execs", "wt_submit te_submit_shutdown inline_all", (3, 1, 1), (4, 2, 1)) + M("coro", "bulk_worker bulk_thread submit_down manual_submit", (3, 1, 1), (4, 2, 1))
                 + M("pool", "pool2_submit", (2, 1), (3, 1), tbudget=1800) + M("coro", "bulk_pool", (2, 1), (3, 1), tbudget=1800)),
 "R01": dict(items=M("result", "result_block result_co result_empty result_types", (3, 1, 1), (5, 2, 1))),
 "R02": dict(items=M("result", "shared_fan shared_drop", (2, 1, 1), (3, 2, 1), ref=True)),
 "R03": dict(items=M("result", "when_all2 when_all3", (3, 1, 1), (4, 2), ref=True) + M("result", "when_edge when_all_where", (2, 1, 1), (3, 2, 1)) + M("result", "when_all_down", (1, 1), (2, 1, 1))),
 "R04": dict(items=M("result", "when_any2 when_any_one when_any_repeat", (2, 1, 1), (3, 2, 1), ref=True) + M("result", "when_edge when_any_where", (2, 1, 1), (3, 2, 1)) + M("result", "when_any_down", (1, 1), (2, 1, 1))),
 "R05": dict(items=M("coro", "lazy_all generator_all", (3, 1, 1), (4, 2, 1)) + M("coro", "resume_hop resume_hop_down", (2, 1, 1), (3, 2, 1))),
 "T01": dict(items=M("timer", "tm_oneshot tm_order tm_idle_retire tm_periodic tm_slow tm_exec_shutdown", (3, 1, 1), (4, 2, 1)) + M("timer", "tm_executor", (2, 1), (3, 2, 1))),
 "T02": dict(items=M("timer", "tm_cancel tm_cancel_manual tm_cancel_in_cb", (3, 1, 1), (4, 2, 1)) + M("timer", "tm_periodic", (3, 2, 1), (4, 2, 1))),
 "T03": dict(items=M("timer", "tm_shutdown tm_delay_shutdown tm_delay_exec_down", (3, 1, 1), (4, 2, 1)) + M("timer", "tm_delay", (2, 1, 1), (3, 2, 1))),
 "S01": dict(items=M("sys", "sp1_drain sp2_drain sp2_depend sp_stop_enqueue tq_two tq_workers tq_drop th_loop th_once th_stop", (3, 1, 1), (5, 2, 1)) + M("sys", "sp2_idle sp_two_posters", (2, 1), (3, 1, 1))),
 "L01": dict(items=M("log", "lg_stop lg_stop_now lg_before lg_destroy lg_unused lg_two lg_flush lg_roll", (2, 1, 1), (4, 2, 1)) + M("log", "lg_front", (2, 1), (4, 2)) + M("log", "lg_front_async", (1, 0), (2, 0))
                 + S("log", "log_items log_long log_levels log_async_big")),
 "F01": dict(items=S("ini", "ini_lines ini_reopen ini_many ini_edge")),
 "F02": dict(items=S("tab", "tab_all tab_large tab_long tab_damaged tab_text_hostile")),
 "U01": dict(items=S("util", "u_trim u_replace u_slashes u_escape u_explode u_paths u_makedir u_numbers")),
 "U02": dict(items=S("util", "u_b64_all u_b64_len u_b64_hostile u_md5 u_hex u_password u_password_bad u_number u_number_bad")),
 "V01": dict(items=S("util", "u_variable") + M("var", "va_count va_assign va_cross va_swap", (4, 1), (8, 2))),
 "A01": dict(items=S("addr", "a_text a_bytes")),
 "K01": dict(assume=NETASSUME, items=M("netkernel", "k_options k_destroy k_stopped k_names k_console_retry", (1, 1, 1), (2, 1, 1), extra=("--steps", "60000"))
                 + M("netkernel", "k_console k_console_early k_console_register k_list_race", (1, 0), (2, 0), budget=150, tbudget=1800, extra=("--steps", "60000"))),
 "M01": dict(items=M("mem", "mp_two mp_three mp_pass mp_full", (4, 0), (7, 0)) + S("mem", "mp_program mp_containers mp_stack")),
 "N01": dict(items=S("stream", "ring_fixed ring_dynamic stream_buffer")),
 "N02": dict(items=S("stream", "stream_pull stream_push stream_buffer")),
 "N03": dict(items=S("stream", "codec_framing codec_limits codec_hostile")),
 "N04": dict(items=S("stream", "line_framing line_limit line_encode_rt")),
 "N05": dict(items=S("stream", "packet_values packet_flags packet_hostile")),
 "N06": dict(items=S("rpc", "rpc_int rpc_int32_all rpc_float rpc_double rpc_sequence rpc_sizes")),
 "N07": dict(items=S("rpc", "rpc_truncated rpc_hostile") + S("stream", "codec_hostile packet_hostile")),
 "N08": dict(items=S("rpc", "rpc_dispatch")),
 "N09": dict(assume=NETASSUME, items=NET("nr_serve nr_serve_err nr_stop nr_stop_race nr_close nr_close_race nr_timeout") + NET("nr_call2 nr_err nr_answer_close nr_threads", (1, 1), (2, 0), (1, 0), (1, 1))),
 "N10": dict(assume=NETASSUME, items=NET("nc_send nc_send2 nc_recv nc_recv_close nc_many_close ns_echo ns_two ns_pool ns_broadcast ns_counters ns_eintr ns_sel_eintr nc_sel_send nc_sel_recv ns_sel_two")
                 + NET("nc_sendbuf ns_pool_echo ns_bcast_race", (1, 1), (2, 0), (1, 0), (1, 1)) + M("net", "nc_partial", (0, 0), (1, 0), budget=60, extra=("-f", "1", "--steps", "90000"))),
 "N11": dict(assume=NETASSUME, items=NET("nc_refused ns_close ns_full ns_rst ns_drop ns_sel_rst") + NET("nk_reconnect ns_reuse nc_callbacks ns_sel_echo", (1, 1), (2, 1), (1, 0), (2, 0)) + M("net", "ns_bad_then_good", (0, 0), (1, 0), budget=60, extra=("-f", "1", "--steps", "90000"))),
 "N12": dict(assume=NETASSUME, items=NET("nc_stop_idle nc_stop_race nc_recv_stop nc_sel_stop ns_stop_clients ns_stop_accept ns_destroy nc_destroy ns_stop2 nr_stop nr_stop_race", t=(3, 1))),
}

def items(pid, tier):
    out = []
    for i in PLAN[pid]["items"]:
        th = tier == "thorough"
        if i["kind"] == "mc":
            p, t, *sp = i["t"] if th else i["q"]
            a = ["-p", str(p), "-t", str(t)] + (["-s", str(sp[0])] if sp else []) + (["--refcounts"] if i["ref"] else []) + i["extra"]
        else:
            a = ["--thorough"] if th else []
        out.append(dict(bin=i["bin"], scn=i["scn"], args=a, budget=i["tb"] if th else i["qb"]))
    return out
