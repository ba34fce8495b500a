/* The C half of C12: everything here goes through the declarations of turtls.h. Built as a shared
 * object; the functions come in through a table whose types are those of the header. */
#include "turtls.h"
#include <string.h>

struct Api {
    __typeof__(&turtls_new) new_;
    __typeof__(&turtls_free) free_;
    __typeof__(&turtls_connect) connect;
    __typeof__(&turtls_close) close;
    __typeof__(&turtls_get_config) get_config;
    __typeof__(&turtls_get_error) get_error;
    __typeof__(&turtls_get_tls_error) get_tls_error;
    __typeof__(&turtls_app_proto) app_proto;
    __typeof__(&turtls_stringify_alert) stringify;
};

struct Entry {
    const char *name;
    long long value;
};
#define E(x) { #x, (long long)(x) }
#define S(x) { "sizeof " #x, (long long)sizeof(x) }
#define O(t, f) { "offsetof " #t "." #f, (long long)offsetof(struct t, f) }
static const struct Entry entries[] = {
    E(TURTLS_ECDSA_SECP256R1), E(TURTLS_SECP256R1),
    E(TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256), E(TurtlsCipherList_TURTLS_AES_128_GCM_SHA256),
    E(TURTLS_ALERT_CLOSE_NOTIFY), E(TURTLS_ALERT_UNEXPECTED_MESSAGE), E(TURTLS_ALERT_BAD_RECORD_MAC), E(TURTLS_ALERT_RECORD_OVERFLOW),
    E(TURTLS_ALERT_HANDSHAKE_FAILURE), E(TURTLS_ALERT_BAD_CERT), E(TURTLS_ALERT_UNSUPPORTED_CERT), E(TURTLS_ALERT_CERT_REVOKED),
    E(TURTLS_ALERT_CERT_EXPIRED), E(TURTLS_ALERT_CERT_UNKNOWN), E(TURTLS_ALERT_ILLEGAL_PARAM), E(TURTLS_ALERT_UNKNOWN_CA),
    E(TURTLS_ALERT_ACCESS_DENIED), E(TURTLS_ALERT_DECODE_ERROR), E(TURTLS_ALERT_DECRYPT_ERORR), E(TURTLS_ALERT_PROTOCOL_VERSION),
    E(TURTLS_ALERT_INSUFFICIENT_SECURITY), E(TURTLS_ALERT_INTERNAL_ERROR), E(TURTLS_ALERT_INAPPROPRIATE_FALLBACK), E(TURTLS_ALERT_USER_CANCELLED),
    E(TURTLS_ALERT_MISSING_EXTENSION), E(TURTLS_ALERT_UNSUPPORTED_EXTENSION), E(TURTLS_ALERT_UNRECOGNIZED_NAME), E(TURTLS_ALERT_BAD_CERT_STATUS_RESPONSE),
    E(TURTLS_ALERT_UNKNOWN_PSK_IDENTITY), E(TURTLS_ALERT_CERT_REQUIRED), E(TURTLS_ALERT_NO_APP_PROTOCOL),
    E(TURTLS_ERROR_TLS), E(TURTLS_ERROR_TLS_PEER), E(TURTLS_ERROR_RNG), E(TURTLS_ERROR_WANT_READ), E(TURTLS_ERROR_WANT_WRITE),
    E(TURTLS_ERROR_PRIV_KEY_IS_ZERO), E(TURTLS_ERROR_MISSING_EXTENSIONS),
    S(enum TurtlsAlert), S(enum TurtlsError), S(struct TurtlsIo), S(struct TurtlsExts), S(struct TurtlsConfig), S(TurtlsCipherList),
    O(TurtlsIo, write_fn), O(TurtlsIo, read_fn), O(TurtlsIo, close_fn), O(TurtlsIo, ctx),
    O(TurtlsExts, server_name), O(TurtlsExts, sig_algs), O(TurtlsExts, sup_groups), O(TurtlsExts, app_protos), O(TurtlsExts, app_protos_len),
    O(TurtlsConfig, extensions), O(TurtlsConfig, cipher_suites),
};
const struct Entry *side_entries(size_t *n) {
    *n = sizeof entries / sizeof entries[0];
    return entries;
}

/* One connection driven from C. */
struct Run {
    const unsigned char *in;
    size_t in_len, in_pos;
    unsigned char *out;
    size_t out_cap, out_len;
    int closes, fail_write;
    /* configuration */
    int configure;
    const char *server_name, *app_protos;
    size_t app_protos_len;
    unsigned sig_algs, sup_groups, suites;
    /* results */
    int ret, err, alert;
    const char *text;
    char proto[256];
    const char *def_server_name, *def_app_protos;
    size_t def_app_protos_len;
    unsigned def_sig_algs, def_sup_groups, def_suites;
    int close_again;
};
static ptrdiff_t on_write(const void *buf, size_t amt, const void *ctx) {
    struct Run *r = (struct Run *)ctx;
    if (r->fail_write || r->out_len + amt > r->out_cap)
        return -1;
    memcpy(r->out + r->out_len, buf, amt);
    r->out_len += amt;
    return (ptrdiff_t)amt;
}
static ptrdiff_t on_read(void *buf, size_t amt, const void *ctx) {
    struct Run *r = (struct Run *)ctx;
    size_t n = r->in_len - r->in_pos;
    if (n > amt)
        n = amt;
    memcpy(buf, r->in + r->in_pos, n);
    r->in_pos += n;
    return (ptrdiff_t)n;
}
static void on_close(const void *ctx) {
    ((struct Run *)ctx)->closes++;
}
void side_run(const struct Api *api, struct Run *r) {
    struct TurtlsIo io;
    struct TurtlsConn *conn;
    struct TurtlsConfig *c;
    io.write_fn = on_write;
    io.read_fn = on_read;
    io.close_fn = on_close;
    io.ctx = r;
    conn = api->new_(io);
    c = api->get_config(conn);
    r->def_server_name = c->extensions.server_name;
    r->def_app_protos = c->extensions.app_protos;
    r->def_app_protos_len = c->extensions.app_protos_len;
    r->def_sig_algs = c->extensions.sig_algs;
    r->def_sup_groups = c->extensions.sup_groups;
    r->def_suites = c->cipher_suites;
    if (r->configure) {
        c->extensions.server_name = r->server_name;
        c->extensions.app_protos = r->app_protos;
        c->extensions.app_protos_len = r->app_protos_len;
        c->extensions.sig_algs = (uint16_t)r->sig_algs;
        c->extensions.sup_groups = (uint16_t)r->sup_groups;
        c->cipher_suites = (TurtlsCipherList)r->suites;
    }
    r->ret = api->connect(conn);
    {
        enum TurtlsError e = api->get_error(conn);
        enum TurtlsAlert a = api->get_tls_error(conn);
        const char *p = api->app_proto(conn);
        r->err = (int)e;
        r->alert = (int)a;
        r->text = api->stringify(a);
        memset(r->proto, 0, sizeof r->proto);
        strncpy(r->proto, p, sizeof r->proto - 1);
    }
    if (r->close_again)
        api->close(conn);
    api->free_(conn);
}
const char *side_text(const struct Api *api, int alert) {
    return api->stringify((enum TurtlsAlert)alert);
}
