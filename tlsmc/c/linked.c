/* An ordinary program: the public header and -lturtls. A plaintext alert of every code is answered
 * to a real ClientHello; prints one line per observation. */
#include <stdio.h>
#include <string.h>
#include <turtls.h>

static unsigned char in[7] = {21, 3, 3, 0, 2, 2, 0};
static size_t pos, sent;
static int closes;
static ptrdiff_t wr(const void *b, size_t n, const void *c) {
    (void)b, (void)c;
    sent += n;
    return (ptrdiff_t)n;
}
static ptrdiff_t rd(void *b, size_t n, const void *c) {
    (void)c;
    if (n > sizeof in - pos)
        n = sizeof in - pos;
    memcpy(b, in + pos, n);
    pos += n;
    return (ptrdiff_t)n;
}
static void cl(const void *c) {
    (void)c;
    closes++;
}
int main(void) {
    struct TurtlsIo io = {wr, rd, cl, 0};
    struct TurtlsConn *conn = turtls_new(io);
    struct TurtlsConfig *cfg = turtls_get_config(conn);
    cfg->cipher_suites = TurtlsCipherList_TURTLS_AES_128_GCM_SHA256;
    cfg->extensions.sup_groups = TURTLS_SECP256R1;
    cfg->extensions.sig_algs = TURTLS_ECDSA_SECP256R1;
    for (int code = 0; code < 256; code += 5) {
        pos = sent = 0, closes = 0;
        in[6] = (unsigned char)code;
        int r = turtls_connect(conn);
        printf("%d %d %d %d %d '%s' '%s' %d\n", code, r, (int)turtls_get_error(conn), (int)turtls_get_tls_error(conn), closes,
               turtls_stringify_alert(turtls_get_tls_error(conn)), turtls_app_proto(conn), sent > 100);
        turtls_close(conn);
    }
    turtls_free(conn);
    return 0;
}
