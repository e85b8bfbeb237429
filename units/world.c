/*@unit
{"props": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C13", "C20"], "functions": ["xmpp_run_once", "conn_parser_reset", "_auth", "_handle_features", "_handle_proceedtls_default", "_handle_scram_challenge", "_handle_digestmd5_challenge", "_handle_sasl_result", "_handle_features_sasl", "_handle_features_compress", "_handle_compress_result", "_handle_bind", "_handle_session", "_handle_sm", "_handle_legacy", "_handle_component_auth", "_handle_component_hs_response", "_handle_error", "auth_handle_open", "auth_handle_component_open", "conn_disconnect", "xmpp_disconnect", "xmpp_send", "xmpp_send_raw", "send_raw", "send_stanza", "handler_fire_stanza", "handler_fire_timed", "conn_established", "conn_tls_start", "compression_init"], "assumptions": ["sockets, select, clock, name resolution, random numbers and TLS are stand-ins (units/world.h); libexpat, zlib and OpenSSL digests are the real libraries"], "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "without": ["rand.c", "tls_openssl.c"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "client1", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["DEVS=1"], "bound": "one deviation anywhere", "timeout": 240, "workers": 4, "tier": "quick", "covers": ["connected", "SCRAM proof verified", "PLAIN verified"]},
  {"name": "client2", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["DEVS=2", "MASK=0xfff"], "bound": "two deviations", "timeout": 150, "workers": 8, "tier": "quick", "props": ["C01", "C02", "C03", "C08", "C12", "C13"], "covers": ["connected"], "partial": true},
  {"name": "chal2", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["DEVS=2", "MASK=0x440b"], "bound": "two deviations in configuration, offers, answers, challenges", "timeout": 240, "workers": 4, "tier": "quick", "props": ["C02", "C07", "C03", "C01"], "covers": ["connected", "digest-md5 response verified"]},
  {"name": "sm1", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["T_SM", "DEVS=1"], "bound": "one deviation, session broken and resumed", "timeout": 240, "workers": 4, "tier": "quick", "covers": ["resumption requested", "unacknowledged stanza sent again"]},
  {"name": "sm2", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["T_SM", "DEVS=2", "MASK=0x21e0"], "bound": "two deviations", "timeout": 120, "workers": 8, "tier": "quick", "props": ["C01", "C04", "C05", "C06", "C12"], "covers": ["resumption requested", "unacknowledged stanza sent again", "<a/> checked"], "partial": true},
  {"name": "comp2", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["B_COMPONENT", "DEVS=2"], "bound": "two deviations, component", "timeout": 240, "workers": 4, "tier": "quick", "covers": ["connected"]},
  {"name": "leg2", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["B_LEGACY", "DEVS=2", "MASK=0xcff"], "bound": "two deviations, legacy authentication", "timeout": 240, "workers": 4, "tier": "quick", "covers": ["connected"]},
  {"name": "zlib1", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["B_ZLIB", "DEVS=1"], "bound": "one deviation, compression", "timeout": 240, "workers": 4, "tier": "quick", "covers": ["connected"]},
  {"name": "zlib2", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["B_ZLIB", "DEVS=2", "MASK=0x23c0"], "bound": "two deviations, compression", "timeout": 240, "workers": 4, "tier": "quick", "props": ["C20", "C06"], "covers": ["connected"], "partial": true},
  {"name": "ssl1", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["B_SSL", "DEVS=1"], "bound": "one deviation, legacy SSL", "timeout": 240, "workers": 4, "tier": "quick", "covers": ["connected"]},
  {"name": "send3", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["DEVS=3", "MASK=0x1c0"], "bound": "three deviations of user and transport", "timeout": 300, "workers": 8, "tier": "thorough", "props": ["C06"], "covers": ["connected"], "partial": true},
  {"name": "client2all", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["DEVS=2"], "bound": "two deviations", "timeout": 800, "workers": 8, "tier": "thorough", "covers": ["connected"], "partial": true},
  {"name": "sm2all", "mode": "bounded", "engine": "enum", "split": 0, "defs": ["T_SM", "DEVS=2"], "bound": "two deviations", "timeout": 800, "workers": 8, "tier": "thorough", "covers": ["connected"], "partial": true},
  {"name": "deep", "mode": "bounded", "engine": "sample", "split": 0, "defs": ["DEVS=6", "W_SAMPLE=25"], "bound": "up to 6 random deviations", "timeout": 600, "workers": 8, "tier": "thorough", "covers": ["connected"], "samples": 2000000, "partial": true},
  {"name": "smdeep", "mode": "bounded", "engine": "sample", "split": 0, "defs": ["T_SM", "DEVS=6", "W_SAMPLE=40"], "bound": "up to 6 random deviations", "timeout": 600, "workers": 8, "tier": "thorough", "covers": ["connected"], "samples": 2000000, "partial": true}
 ]}
*/
#include "vf.h"
#include "srv.h"
void harness(void)
{
    cfg_default();
#ifdef B_COMPONENT
    C.component = 1; C.jid = "comp.d"; C.pass = "sec";
    C.s_tls = C.s_bind = C.s_sm = 0; C.s_mech = 0;
#endif
#ifdef B_LEGACY
    C.flags = XMPP_CONN_FLAG_LEGACY_AUTH | XMPP_CONN_FLAG_DISABLE_TLS; C.s_mech = 0; C.s_tls = 0; C.s_bind = C.s_sm = 0;
#endif
#ifdef B_ZLIB
    C.flags = XMPP_CONN_FLAG_ENABLE_COMPRESSION; C.s_comp = 1;
#endif
#ifdef B_SSL
    C.flags = XMPP_CONN_FLAG_LEGACY_SSL;
#endif
    if (!C.component && C.flags == 0) cfg_dev();
    setup();
#ifdef T_SM
    cycle(30, 0, 3);
    cycle(30, 3, 0);
#else
    cycle(45, 4, 0);
#endif
    teardown();
}
