/* One "source file" per inclusion: LOG_LEVEL, DEBUG and PATH_ are set by the
 * includer, U names the function.  Included many times on purpose. */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static void U(int kind, int a, int b, gnss_signal_t sid) {
  switch (kind) {
    case 0: log_emerg("e%d %d", arg(a), b); break;
    case 1: log_alert("a%d", arg(a)); break;
    case 2: log_crit("c%d %s %d", arg(a), "x y", b); break;
    case 3: log_error("r%d:%d", b, arg(a)); break;
    case 4: log_warn("w%d", arg(a)); break;
    case 5: log_notice("n%d %d", arg(a), b); break;
    case 6: log_info("i%d", arg(a)); break;
    case 7: log_debug("d%d %d", arg(a), b); break;
    case 20: log_error_sid(sid, "r%d", arg(a)); break;
    case 21: log_warn_sid(sid, "w%d %d", arg(a), b); break;
    case 22: log_info_sid(sid, "i%d %d", arg(a), b); break;
    case 23: log_debug_sid(sid, "d%d", arg(a)); break;
    case 24: log_error_sid(sid, "plain"); break;
    case 25: log_debug_sid(sid, "plain"); break;
    case 40: DEBUG_ENTRY(); break;
    case 41: DEBUG_EXIT(); break;
#line 100 PATH_
    case 10: detailed_log_emerg("e%d %d", arg(a), b); break;
    case 11: detailed_log_alert("a%d", arg(a)); break;
    case 12: detailed_log_crit("c%d %s %d", arg(a), "x y", b); break;
    case 13: detailed_log_error("r%d:%d", b, arg(a)); break;
    case 14: detailed_log_warn("w%d", arg(a)); break;
    case 15: detailed_log_notice("n%d %d", arg(a), b); break;
    case 16: detailed_log_info("i%d", arg(a)); break;
    case 17: detailed_log_debug("d%d %d", arg(a), b); break;
    case 30: detailed_log_error_sid(sid, "r%d", arg(a)); break;
    case 31: detailed_log_warn_sid(sid, "w%d %d", arg(a), b); break;
    case 32: detailed_log_info_sid(sid, "i%d %d", arg(a), b); break;
    case 33: detailed_log_debug_sid(sid, "d%d", arg(a)); break;
    case 34: detailed_log_error_sid(sid, "plain"); break;
    case 35: detailed_log_debug_sid(sid, "plain"); break;
  }
}
#undef U
#undef LOG_LEVEL
#undef DEBUG
#undef PATH_
