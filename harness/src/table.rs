// Written by mkplan.py.
pub static TABLE: &[(&str, fn())] = &[
    ("c24_least_used", crate::build::c24_least_used),
    ("c24_wide", crate::build::c24_wide),
    ("c24_many", crate::build::c24_many),
    ("c24_much", crate::build::c24_much),
    ("c24_handles", crate::build::c24_handles),
    ("c24_threads", crate::build::c24_threads),
    ("c24_clients", crate::build::c24_clients),
    ("c24_refused", crate::build::c24_refused),
    ("c25_configured", crate::build::c25_configured),
    ("c25_many", crate::build::c25_many),
    ("c25_pool", crate::build::c25_pool),
    ("c25_defaults", crate::build::c25_defaults),
    ("c25_errors", crate::build::c25_errors),
    ("c27_tcp", crate::build::c27_tcp),
    ("c27_unix", crate::build::c27_unix),
    ("c27_halves", crate::build::c27_halves),
    ("c27_whole", crate::build::c27_whole),
    ("c07_clock", crate::emit::c07_clock),
    ("c07_many", crate::emit::c07_many),
    ("c07_still", crate::emit::c07_still),
    ("c07_threads", crate::emit::c07_threads),
    ("c07_emitted", crate::emit::c07_emitted),
    ("c14_interleaving", crate::emit::c14_interleaving),
    ("c14_threads", crate::emit::c14_threads),
    ("c14_large", crate::emit::c14_large),
    ("c14_handler", crate::emit::c14_handler),
    ("c16_complete", crate::emit::c16_complete),
    ("c16_large", crate::emit::c16_large),
    ("c16_blocked", crate::emit::c16_blocked),
    ("c16_not_encodable", crate::emit::c16_not_encodable),
    ("c12_dispatch", crate::handle::c12_dispatch),
    ("c12_names", crate::handle::c12_names),
    ("c12_near", crate::handle::c12_near),
    ("c12_special", crate::handle::c12_special),
    ("c12_error_handler", crate::handle::c12_error_handler),
    ("c13_terminal", crate::handle::c13_terminal),
    ("c13_concurrent", crate::handle::c13_concurrent),
    ("c13_dangling_end", crate::handle::c13_dangling_end),
    ("c13_quiesce", crate::handle::c13_quiesce),
    ("c15_isolation", crate::handle::c15_isolation),
    ("c15_client", crate::handle::c15_client),
    ("c15_write_failure", crate::handle::c15_write_failure),
    ("c13_threads", crate::handle::c13_threads),
    ("c26_stop", crate::handle::c26_stop),
    ("c26_not_stopped", crate::handle::c26_not_stopped),
    ("c26_handler", crate::handle::c26_handler),
    ("c26_meanwhile", crate::handle::c26_meanwhile),
    ("c26_pool", crate::handle::c26_pool),
    ("c26_threads", crate::handle::c26_threads),
    ("c29_requests", crate::leak::c29_requests),
    ("c29_events", crate::leak::c29_events),
    ("c29_connections", crate::leak::c29_connections),
    ("c29_clients", crate::leak::c29_clients),
    ("c29_guards", crate::leak::c29_guards),
    ("c32_requests", crate::polled::c32_requests),
    ("c32_tasks", crate::polled::c32_tasks),
    ("c08_route", crate::reply::c08_route),
    ("c08_broken_error", crate::reply::c08_broken_error),
    ("c08_connections", crate::reply::c08_connections),
    ("c08_in_handler", crate::reply::c08_in_handler),
    ("c09_threads", crate::reply::c09_threads),
    ("c08_threads", crate::reply::c08_threads),
    ("c09_early", crate::reply::c09_early),
    ("c10_stream", crate::reply::c10_stream),
    ("c10_threads", crate::reply::c10_threads),
    ("c10_kinds", crate::reply::c10_kinds),
    ("c10_slow", crate::reply::c10_slow),
    ("c10_dropped", crate::reply::c10_dropped),
    ("c10_two", crate::reply::c10_two),
    ("c11_timeout", crate::reply::c11_timeout),
    ("c11_zero", crate::reply::c11_zero),
    ("c11_in_time", crate::reply::c11_in_time),
    ("c11_late_poll", crate::reply::c11_late_poll),
    ("c11_stream", crate::reply::c11_stream),
    ("c11_given_up", crate::reply::c11_given_up),
    ("c08_many", crate::scale::c08_many),
    ("c08_sequence", crate::scale::c08_sequence),
    ("c08_large", crate::scale::c08_large),
    ("c12_many", crate::scale::c12_many),
    ("c13_many", crate::scale::c13_many),
    ("c13_texts", crate::scale::c13_texts),
    ("c15_many", crate::scale::c15_many),
    ("c16_many", crate::scale::c16_many),
    ("c24_often", crate::scale::c24_often),
    ("c30_waiting", crate::wait::c30_waiting),
    ("c30_many", crate::wait::c30_many),
    ("c30_stuck", crate::wait::c30_stuck),
    ("c30_connections", crate::wait::c30_connections),
    ("c30_nested", crate::wait::c30_nested),
    ("c30_sleeping", crate::wait::c30_sleeping),
    ("c01_roundtrip", crate::wire::c01_roundtrip),
    ("c01_long", crate::wire::c01_long),
    ("c01_huge", crate::wire::c01_huge),
    ("c02_layout", crate::wire::c02_layout),
    ("c02_decode", crate::wire::c02_decode),
    ("c03_arbitrary", crate::wire::c03_arbitrary),
    ("c03_header", crate::wire::c03_header),
    ("c03_lengths", crate::wire::c03_lengths),
    ("c03_version", crate::wire::c03_version),
    ("c04_extension", crate::wire::c04_extension),
    ("c04_long", crate::wire::c04_long),
    ("c05_segments", crate::wire::c05_segments),
    ("c05_truncated", crate::wire::c05_truncated),
    ("c05_large", crate::wire::c05_large),
    ("c06_oversize", crate::wire::c06_oversize),
    #[cfg(not(feature = "anyser"))]
    ("c22_raw", crate::payload::c22_raw),
    #[cfg(not(feature = "anyser"))]
    ("c22_tandem", crate::payload::c22_tandem),
    #[cfg(not(feature = "anyser"))]
    ("c22_tandem_foreign", crate::payload::c22_tandem_foreign),
    #[cfg(not(feature = "anyser"))]
    ("c22_error", crate::payload::c22_error),
    #[cfg(not(feature = "anyser"))]
    ("c22_error_foreign", crate::payload::c22_error_foreign),
    #[cfg(not(feature = "anyser"))]
    ("c22_unit", crate::payload::c22_unit),
    #[cfg(feature = "enc")]
    ("c17_writes", crate::enc::c17_writes),
    #[cfg(feature = "enc")]
    ("c17_large", crate::enc::c17_large),
    #[cfg(feature = "enc")]
    ("c17_huge", crate::enc::c17_huge),
    #[cfg(feature = "enc")]
    ("c17_long", crate::enc::c17_long),
    #[cfg(feature = "enc")]
    ("c17_reads", crate::enc::c17_reads),
    #[cfg(feature = "enc")]
    ("c17_duplex", crate::enc::c17_duplex),
    #[cfg(feature = "enc")]
    ("c17_ipc", crate::enc::c17_ipc),
    #[cfg(feature = "enc")]
    ("c18_changed", crate::enc::c18_changed),
    #[cfg(feature = "enc")]
    ("c18_order", crate::enc::c18_order),
    #[cfg(feature = "enc")]
    ("c18_forged", crate::enc::c18_forged),
    #[cfg(feature = "enc")]
    ("c18_sizes", crate::enc::c18_sizes),
    #[cfg(feature = "enc")]
    ("c18_truncated", crate::enc::c18_truncated),
    #[cfg(feature = "enc")]
    ("c18_reflected", crate::enc::c18_reflected),
    #[cfg(feature = "enc")]
    ("c19_sequence", crate::enc::c19_sequence),
    #[cfg(feature = "enc")]
    ("c19_exchange", crate::enc::c19_exchange),
    #[cfg(feature = "enc")]
    ("c19_long", crate::enc::c19_long),
    #[cfg(feature = "enc")]
    ("c19_directions", crate::enc::c19_directions),
    #[cfg(feature = "enc")]
    ("c19_initial", crate::enc::c19_initial),
    #[cfg(feature = "enc")]
    ("c20_authorised", crate::enc::c20_authorised),
    #[cfg(feature = "enc")]
    ("c20_agree", crate::enc::c20_agree),
    #[cfg(feature = "enc")]
    ("c20_interfered", crate::enc::c20_interfered),
    #[cfg(feature = "enc")]
    ("c21_failed", crate::enc::c21_failed),
    #[cfg(feature = "enc")]
    ("c21_many", crate::enc::c21_many),
    #[cfg(feature = "enc")]
    ("c28_cancel", crate::enc::c28_cancel),
    #[cfg(feature = "enc")]
    ("c28_large", crate::enc::c28_large),
    #[cfg(feature = "enc")]
    ("c28_errors", crate::enc::c28_errors),
    #[cfg(feature = "enc")]
    ("c28_read_errors", crate::enc::c28_read_errors),
    #[cfg(feature = "enc")]
    ("c28_flush", crate::enc::c28_flush),
    #[cfg(feature = "enc")]
    ("c29_encrypted", crate::enc::c29_encrypted),
    #[cfg(feature = "enc")]
    ("c30_encrypted", crate::enc::c30_encrypted),
    #[cfg(feature = "enc")]
    ("c30_directions", crate::enc::c30_directions),
    #[cfg(feature = "enc")]
    ("c31_exchange", crate::enc::c31_exchange),
    #[cfg(feature = "enc")]
    ("c31_writes", crate::enc::c31_writes),
    #[cfg(feature = "enc")]
    ("c31_ipc", crate::enc::c31_ipc),
    #[cfg(feature = "enc")]
    ("c31_large", crate::enc::c31_large),
    #[cfg(feature = "enc")]
    ("c32_encrypted", crate::enc::c32_encrypted),
    #[cfg(feature = "enc")]
    ("c33_generated", crate::enc::c33_generated),
    #[cfg(feature = "enc")]
    ("c33_connection", crate::enc::c33_connection),
    #[cfg(feature = "enc")]
    ("c33_defaults", crate::enc::c33_defaults),
    #[cfg(feature = "ser")]
    ("c23_values", crate::ser::c23_values),
    #[cfg(feature = "ser")]
    ("c23_integers", crate::ser::c23_integers),
    #[cfg(feature = "ser")]
    ("c23_sizes", crate::ser::c23_sizes),
    #[cfg(feature = "ser")]
    ("c23_shapes", crate::ser::c23_shapes),
    #[cfg(feature = "ser")]
    ("c23_ids", crate::ser::c23_ids),
    #[cfg(feature = "ser")]
    ("c23_foreign", crate::ser::c23_foreign),
    #[cfg(feature = "ser")]
    ("c23_json", crate::ser::c23_json),
    #[cfg(feature = "ser")]
    ("c23_endpoints", crate::ser::c23_endpoints),
    #[cfg(feature = "ser")]
    ("c23_pool", crate::ser::c23_pool),
    #[cfg(feature = "two")]
    ("c23_partial", crate::two::c23_partial),
];
