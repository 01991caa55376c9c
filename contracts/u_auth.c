/* Peer authentication: DTLS client and server (lib/src), TLS sockets of the proxy (proxy/common/src).
 * GnuTLS is the environment: its functions are stubs that return anything and record, in A, what the code
 * learned about the peer.  A connection is handed over only if what was recorded identifies the peer.
 * The same file is the contract unit (verifier: every choice is nondeterministic) and the replay harness
 * (native: the choices are the bytes of an input). */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <gnutls/dtls.h>
#ifdef VP_CBMC
#include "vp.h"
int vp_nondet_int(void) { int x; return x; }
int vp_nondet_bool(void) { int x; return x != 0; }
#define ANY() vp_nondet_int()
#define FLAG() vp_nondet_bool()
#define RARE() vp_nondet_bool()
#define CHECK(c, t) __CPROVER_assert(c, "vp_post " t)
#define CUT __CPROVER_assume(0)
#else
#include "vph.h"
static int any_(void) { unsigned a = in8(); return a < 128 ? 0 : a < 224 ? (int)(a & 31) - 60 + 60 * ((a >> 5) & 1) : (int)(in16() << 16 | in16()); }
#define ANY() any_()
#define FLAG() (in8() & 1)
#define RARE() ((in8() & 31) == 31)
#define CHECK(c, t) VP_CHECK(c, t)
#define CUT
#define VP_REACH(t)
#endif
/* the session, and what is known about the peer */
static struct {
    int fd, glob, cred, prio, dh, sess, crt;            /* objects in use */
    const char *trust, *crl, *key, *cert;               /* files loaded into the credentials */
    int s_cred, s_prio, s_req, s_flags;                 /* configuration of the session */
    int hs;                                             /* handshake completed with that configuration */
    int ver, status, ctype, peers, imp;                 /* verification after the handshake, certificate of the peer */
    int t_known; time_t now, exp, act; int e_known, a_known;
    int host; const char *host_name;
    int fail;                                           /* something failed */
    int nsel, nhs, ncall;
} A;
static long vp_o0, vp_o1, vp_o2, vp_o3, vp_o4;   /* opaque handles */
#define SESS ((gnutls_session_t)&vp_o0)
#define CRED ((gnutls_certificate_credentials_t)&vp_o1)
#define PRIO ((gnutls_priority_t)&vp_o2)
#define DHP ((gnutls_dh_params_t)&vp_o3)
#define CRT ((gnutls_x509_crt_t)&vp_o4)
static int err(void) { int e = RARE() ? ANY() : 0; if (e >= 0) return 0; A.fail = 1; return e; }
int gnutls_global_init(void) { int e = err(); if (e == 0) A.glob++; return e; }
void gnutls_global_deinit(void) { A.glob--; }
int gnutls_certificate_allocate_credentials(gnutls_certificate_credentials_t *c) { int e = err(); if (e == 0) { A.cred++; *c = CRED; } return e; }
void gnutls_certificate_free_credentials(gnutls_certificate_credentials_t c) { CHECK(c == CRED && A.cred == 1 && A.sess == 0, "the credentials are released once, after the session"); A.cred--; }
int gnutls_certificate_set_x509_trust_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t)
{
    int e = err();
    CHECK(c == CRED && A.cred == 1, "credentials in use");
    if (e == 0 && RARE()) { A.fail = 1; return 0; }
    if (e == 0) { A.trust = f; return 3; }
    return e;
}
int gnutls_certificate_set_x509_crl_file(gnutls_certificate_credentials_t c, const char *f, gnutls_x509_crt_fmt_t t)
{
    int e = err();
    if (e == 0 && RARE()) { A.fail = 1; return 0; }
    if (e == 0) { A.crl = f; return 1; }
    return e;
}
int gnutls_certificate_set_x509_key_file(gnutls_certificate_credentials_t c, const char *cert, const char *key, gnutls_x509_crt_fmt_t t)
{
    int e = err();
    if (e == 0) { A.cert = cert; A.key = key; }
    return e;
}
int gnutls_dh_params_init(gnutls_dh_params_t *d) { int e = err(); if (e == 0) { A.dh++; *d = DHP; } return e; }
int gnutls_dh_params_generate2(gnutls_dh_params_t d, unsigned b) { return err(); }
void gnutls_dh_params_deinit(gnutls_dh_params_t d) { A.dh--; }
void gnutls_certificate_set_dh_params(gnutls_certificate_credentials_t c, gnutls_dh_params_t d) {}
int gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e_) { int e = err(); if (e == 0) { A.prio++; *p = PRIO; } return e; }
void gnutls_priority_deinit(gnutls_priority_t p) { A.prio--; }
int gnutls_init(gnutls_session_t *s, unsigned flags)
{
    int e = err();
    if (e == 0) { A.sess++; *s = SESS; A.s_flags = flags; A.s_cred = A.s_prio = A.s_req = A.hs = A.ver = 0; }
    return e;
}
void gnutls_deinit(gnutls_session_t s) { CHECK(s == SESS && A.sess == 1, "the session is released once"); A.sess--; }
int gnutls_credentials_set(gnutls_session_t s, gnutls_credentials_type_t t, void *c)
{
    int e = err();
    if (e == 0 && s == SESS && t == GNUTLS_CRD_CERTIFICATE && c == CRED) A.s_cred = 1;
    return e;
}
int gnutls_priority_set(gnutls_session_t s, gnutls_priority_t p) { int e = err(); if (e == 0 && p == PRIO) A.s_prio = 1; return e; }
void gnutls_certificate_server_set_request(gnutls_session_t s, gnutls_certificate_request_t r) { A.s_req = r == GNUTLS_CERT_REQUIRE; }
void gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t p) {}
void gnutls_transport_set_pull_function(gnutls_session_t s, gnutls_pull_func f) {}
void gnutls_transport_set_pull_timeout_function(gnutls_session_t s, gnutls_pull_timeout_func f) {}
void gnutls_transport_set_push_function(gnutls_session_t s, gnutls_push_func f) {}
void gnutls_dtls_set_mtu(gnutls_session_t s, unsigned m) {}
void gnutls_dtls_set_timeouts(gnutls_session_t s, unsigned a, unsigned b) {}
unsigned gnutls_dtls_get_timeout(gnutls_session_t s) { return ANY(); }
int gnutls_handshake(gnutls_session_t s)
{
    int e = RARE() ? ANY() : 0;
    CHECK(s == SESS && A.sess == 1, "session in use");
#ifdef VP_CBMC
    if (A.ncall++ > 1) CUT;
#endif
    if (e > 0) e = 0;
    if (RARE()) e = GNUTLS_E_AGAIN;
    errno = 0;
    if (e == 0) { A.hs = A.s_cred && A.s_prio ? 1 + A.s_req : 0; A.ver = 0; }
    else
    {
        A.hs = 0;
        if (e != GNUTLS_E_AGAIN) A.fail = 1;
        if (FLAG()) { errno = EAGAIN; }
        else if (FLAG()) { errno = ECONNREFUSED; A.fail = 1; }
    }
    return e;
}
gnutls_kx_algorithm_t gnutls_kx_get(gnutls_session_t s) { return 0; }
gnutls_cipher_algorithm_t gnutls_cipher_get(gnutls_session_t s) { return 0; }
gnutls_mac_algorithm_t gnutls_mac_get(gnutls_session_t s) { return 0; }
const char *gnutls_cipher_suite_get_name(gnutls_kx_algorithm_t k, gnutls_cipher_algorithm_t c, gnutls_mac_algorithm_t m) { return FLAG() ? "x" : NULL; }
gnutls_alert_description_t gnutls_alert_get(gnutls_session_t s) { return 0; }
const char *gnutls_alert_get_name(gnutls_alert_description_t a) { return "x"; }
const char *gnutls_strerror_name(int e) { return "x"; }
const char *gnutls_strerror(int e) { return "x"; }
int gnutls_bye(gnutls_session_t s, gnutls_close_request_t h) { return FLAG() ? 0 : GNUTLS_E_AGAIN; }
int gnutls_session_set_data(gnutls_session_t s, const void *d, size_t n) { return err(); }
int gnutls_session_get_data2(gnutls_session_t s, gnutls_datum_t *d) { return err(); }
int gnutls_session_is_resumed(gnutls_session_t s) { return FLAG(); }
void gnutls_db_set_ptr(gnutls_session_t s, void *p) {}
void gnutls_db_set_store_function(gnutls_session_t s, gnutls_db_store_func f) {}
void gnutls_db_set_retrieve_function(gnutls_session_t s, gnutls_db_retr_func f) {}
void gnutls_db_set_remove_function(gnutls_session_t s, gnutls_db_remove_func f) {}
int gnutls_rehandshake(gnutls_session_t s) { return err(); }
ssize_t gnutls_record_recv(gnutls_session_t s, void *b, size_t n) { return err(); }
ssize_t gnutls_record_send(gnutls_session_t s, const void *b, size_t n) { return err(); }
int gnutls_certificate_verify_peers2(gnutls_session_t s, unsigned *st)
{
    int e = err();
    CHECK(s == SESS, "session of this peer");
    if (e != 0) return e;
    A.ver = A.hs > 0;
    A.status = RARE() ? ANY() : 0;
    if (A.status != 0) A.fail = 1;
    *st = A.status;
    return 0;
}
gnutls_certificate_type_t gnutls_certificate_type_get(gnutls_session_t s) { A.ctype = RARE() ? ANY() : GNUTLS_CRT_X509; if (A.ctype != GNUTLS_CRT_X509) A.fail = 1; return A.ctype; }
static gnutls_datum_t vp_chain[2];
const gnutls_datum_t *gnutls_certificate_get_peers(gnutls_session_t s, unsigned *n)
{
    if (RARE()) { A.fail = 1; *n = 0; return NULL; }
    A.peers = 1;
    *n = 2;
    return vp_chain;
}
int gnutls_x509_crt_init(gnutls_x509_crt_t *c) { int e = err(); if (e == 0) { A.crt++; *c = CRT; A.imp = 0; } return e; }
void gnutls_x509_crt_deinit(gnutls_x509_crt_t c) { CHECK(c == CRT && A.crt == 1, "a certificate object is released once"); A.crt--; }
int gnutls_x509_crt_import(gnutls_x509_crt_t c, const gnutls_datum_t *d, gnutls_x509_crt_fmt_t f)
{
    int e = err();
    A.imp = e == 0 && c == CRT && d == &vp_chain[0] && f == GNUTLS_X509_FMT_DER;
    return e;
}
static time_t when(void) { int a = FLAG() ? 0 : ANY(); return a; }
time_t gnutls_x509_crt_get_expiration_time(gnutls_x509_crt_t c) { CHECK(c == CRT && A.crt == 1 && A.imp, "the certificate of the peer is examined"); A.e_known = 1; return A.exp; }
time_t gnutls_x509_crt_get_activation_time(gnutls_x509_crt_t c) { CHECK(c == CRT && A.crt == 1 && A.imp, "the certificate of the peer is examined"); A.a_known = 1; return A.act; }
unsigned gnutls_x509_crt_check_hostname(gnutls_x509_crt_t c, const char *h)
{
    CHECK(c == CRT && A.crt == 1 && A.imp, "the certificate of the peer is examined");
    A.host_name = h;
    A.host = RARE() ? ANY() : 1;
    if (A.host == 0) A.fail = 1;
    return A.host;
}
gnutls_free_function gnutls_free;
gnutls_alloc_function gnutls_malloc;
static time_t vp_time(time_t *t) { if (t) *t = A.now; return A.now; }
/* sockets and timers */
static int vp_sockfd(void) { if (RARE()) { A.fail = 1; errno = EMFILE; return -1; } A.fd++; return 10 + A.fd; }
static int vp_close(int fd) { A.fd--; return 0; }
static int vp_ok(void) { if (RARE()) { A.fail = 1; errno = EIO; return -1; } return 0; }
static int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
#ifdef VP_TLS
    if (A.nsel++ > 1) CUT;              /* the loops around select() keep no state: each of their iterations is like the second */
#endif
    tv->tv_sec = ANY();
    if (!RARE()) return 1;              /* one descriptor is waited for: the set is as the caller made it */
    A.fail = 1;
    if (FLAG()) return 0;
    errno = FLAG() ? EINTR : EBADF;
    return -1;
}
static struct sockaddr_storage vp_sa;
static struct addrinfo vp_ai[2];
static int vp_gai(struct addrinfo **l)
{
    int n = RARE() ? 0 : 1 + FLAG();
    if (RARE()) { A.fail = 1; return -2; }
    for (int i = 0; i < 2; i++)
    {
        vp_ai[i].ai_family = RARE() ? ANY() : AF_INET;
        vp_ai[i].ai_socktype = FLAG() ? SOCK_STREAM : SOCK_DGRAM;
        vp_ai[i].ai_addr = (struct sockaddr *)&vp_sa;
        vp_ai[i].ai_addrlen = sizeof(struct sockaddr_in);
        vp_ai[i].ai_next = i + 1 < n ? &vp_ai[i + 1] : NULL;
    }
    *l = n > 0 ? &vp_ai[0] : NULL;
    return 0;
}
#define socket(a, b, c) vp_sockfd()
#define timerfd_create(a, b) vp_sockfd()
#define accept(a, b, c) vp_sockfd()
#define connect(a, b, c) vp_ok()
#define bind(a, b, c) vp_ok()
#define setsockopt(a, b, c, d, e) vp_ok()
#define fcntl(a, ...) vp_ok()
#define close(a) vp_close(a)
#define select(a, b, c, d, e) vp_select(a, b, c, d, e)
#define time(a) vp_time(a)
#define getaddrinfo(a, b, c, d) vp_gai(d)
#define freeaddrinfo(a) ((void)(a))
#define inet_ntop(a, b, c, d) (vp_ok() < 0 ? NULL : "1.2.3.4")
#ifdef VP_CBMC
#undef FD_ZERO
#undef FD_SET
#undef FD_ISSET
#define FD_ZERO(s) ((void)((s)->fds_bits[0] = 0))
#define FD_SET(d, s) ((void)((s)->fds_bits[0] |= 1ul << ((d) & 63)))
#define FD_ISSET(d, s) (((s)->fds_bits[0] >> ((d) & 63)) & 1)
#define strncpy(d, s, n) ((void)((d)[0] = (s)[0], (d)[(n) - 1] = 0))
#endif
void coap_log_error(const char *m, ...) {}
void coap_log_warn(const char *m, ...) {}
void coap_log_notice(const char *m, ...) {}
void coap_log_info(const char *m, ...) {}
void coap_log_debug(const char *m, ...) {}
static const char f_key[] = "k", f_cert[] = "c", f_name[] = "server.example", f_empty[] = "", f_trust[] = "t", f_crl[] = "l";
static void vp_init(void)
{
    memset(&A, 0, sizeof A);
    A.now = FLAG() ? 1000 : when();
    A.exp = FLAG() ? A.now : !RARE() ? A.now + 5 : when();
    A.act = FLAG() ? A.now : !RARE() ? A.now - 5 : when();
    if (A.exp == (time_t)-1 || A.act == (time_t)-1 || A.exp < A.now || A.act > A.now) A.fail = 1;
}
static const char *vp_file(const char *f) { return FLAG() ? f : FLAG() ? f_empty : NULL; }
#define GIVEN(f) ((f) != NULL && (f)[0] != 0)
/* what the code must have learned about the peer */
#define BADSTATUS (GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_FOUND | GNUTLS_CERT_SIGNER_NOT_CA | GNUTLS_CERT_REVOKED)
static void vp_peer(const char *name)
{
    CHECK(A.sess == 1 && A.s_cred && A.s_prio, "the session uses the credentials and priorities of this endpoint");
    CHECK(A.hs > 0, "the handshake completed");
    CHECK(A.ver && !(A.status & BADSTATUS), "the certificate chain of the peer was verified after the handshake and found trusted");
    CHECK(A.ctype == GNUTLS_CRT_X509 && A.peers && A.imp, "the certificate of the peer is an X.509 certificate that can be parsed");
    CHECK(A.e_known && A.exp != (time_t)-1 && A.exp >= A.now, "the certificate has not expired");
    CHECK(A.a_known && A.act != (time_t)-1 && A.act <= A.now, "the certificate is already valid");
    CHECK(name == NULL || (A.host_name == name && A.host != 0), "the certificate was issued to the expected name");
    CHECK(A.crt == 0, "no certificate object is kept");
}
#if defined VP_CLI
#define COAP_DTLS_EN
#include "coap_client.h"
#ifdef VP_CBMC      /* the attempts differ only in their number: the second one stands for any later one */
#define VP_B_coap_client_dtls_handshake_0 if (A.nhs++ == 1) { int k; __CPROVER_assume(k >= i && k < COAP_CLIENT_DTLS_HANDSHAKE_ATTEMPTS); i = k; }
#endif
#include "coap_client.c"
static coap_client_t cli;
static void vp_main(void)
{
    vp_init();
    const char *trust = vp_file(f_trust), *crl = vp_file(f_crl), *name = FLAG() ? f_name : NULL;
    int r = coap_client_create(&cli, "h", "p", f_key, f_cert, trust, crl, name);
    CHECK(r <= 0, "result");
    if (r == 0)
    {
        vp_peer(name);
        CHECK(A.s_flags & GNUTLS_CLIENT, "client session");
        CHECK(!GIVEN(trust) || A.trust == trust, "the peer was verified with the trust file given");
        CHECK(!GIVEN(crl) || A.crl == crl, "and with the revocation list given");
        CHECK(A.key == f_key && A.cert == f_cert, "own key and certificate");
        CHECK(A.fd == 2 && A.glob == 1 && A.cred == 1 && A.prio == 1, "one of each object");
        VP_REACH("connected");
        coap_client_destroy(&cli);
    }
    else
    {
        VP_REACH("refused");
        CHECK(A.fail || vp_ai[0].ai_family != AF_INET || vp_ai[0].ai_socktype != SOCK_DGRAM || A.hs == 0, "a trusted peer is not refused");
    }
    CHECK(A.fd == 0 && A.glob == 0 && A.cred == 0 && A.prio == 0 && A.sess == 0 && A.crt == 0, "every object is released");
}
#elif defined VP_SRV
#define COAP_DTLS_EN
#define COAP_CLIENT_AUTH
#include "coap_server.h"
#ifdef VP_CBMC
void coap_msg_gen_rand_str(char *b, size_t n) {}
void coap_msg_destroy(coap_msg_t *m) {}
#endif
#ifdef VP_CBMC
#define VP_B_coap_server_trans_dtls_handshake_0 if (A.nhs++ == 1) { int k; __CPROVER_assume(k >= i && k < COAP_SERVER_DTLS_HANDSHAKE_ATTEMPTS); i = k; }
#endif
#include "coap_server.c"
static int app(coap_server_trans_t *t, coap_msg_t *a, coap_msg_t *b) { return 0; }
static coap_server_t srv;
static void vp_main(void)
{
    vp_init();
    const char *trust = vp_file(f_trust), *crl = vp_file(f_crl);
    int r = coap_server_create(&srv, app, "h", "p", f_key, f_cert, trust, crl);
    CHECK(r <= 0, "result");
    if (r == 0)
    {
        CHECK(!GIVEN(trust) || A.trust == trust, "clients are verified with the trust file given");
        CHECK(!GIVEN(crl) || A.crl == crl, "and with the revocation list given");
        CHECK(A.key == f_key && A.cert == f_cert, "own key and certificate");
        CHECK(A.fd == 1 && A.glob == 1 && A.cred == 1 && A.prio == 1 && A.dh == 1, "one of each object");
        A.fail = 0;
        if (A.exp == (time_t)-1 || A.act == (time_t)-1 || A.exp < A.now || A.act > A.now) A.fail = 1;
        coap_ipv_sockaddr_in_t sin;
        memset(&sin, 0, sizeof sin);
        r = coap_server_trans_create(&srv.trans[0], &srv, &sin, sizeof sin);
        CHECK(r <= 0, "result");
        if (r == 0)
        {
            vp_peer(NULL);
            CHECK(A.s_flags & GNUTLS_SERVER, "server session");
            CHECK(A.hs == 2, "a certificate was required from the client in the handshake");
            CHECK(srv.trans[0].active, "transaction in use");
            VP_REACH("accepted");
        }
        else
        {
            VP_REACH("refused");
            CHECK(A.fail || A.hs == 0, "a trusted peer is not refused");
            CHECK(!srv.trans[0].active, "no transaction");
            CHECK(A.fd == 1 && A.sess == 0 && A.crt == 0, "every object is released");
        }
        coap_server_destroy(&srv);
    }
    CHECK(A.fd == 0 && A.glob == 0 && A.cred == 0 && A.prio == 0 && A.dh == 0 && A.sess == 0 && A.crt == 0, "every object is released");
}
#else
#define TLS_CLIENT_AUTH
#include "lock.h"
static int vp_locked;
static int vp_lock_ok(void) { return vp_ok(); }
#undef lock_create
#include "tls_sock.h"
#define sleep(a) ((void)(a))
#define listen(a, b) vp_ok()
static unsigned char vp_sd[4];
gnutls_priority_t tls_get_priority_cache(void) { return PRIO; }
gnutls_datum_t tls_client_get(tls_client_t *c, char *a) { gnutls_datum_t d; d.data = vp_sd; d.size = FLAG() ? 4 : 0; return d; }
int tls_client_set(tls_client_t *c, char *a, gnutls_datum_t d) { return 0; }
int tls_server_set(void *b, gnutls_datum_t k, gnutls_datum_t d) { return 0; }
gnutls_datum_t tls_server_get(void *b, gnutls_datum_t k) { gnutls_datum_t d; d.data = NULL; d.size = 0; return d; }
int tls_server_delete(void *b, gnutls_datum_t k) { return 0; }
static tls_client_t c;
static tls_server_t sv;
#ifdef VP_CBMC      /* the verifier loses pointers that are read through the union tls_sock_t.u */
static gnutls_certificate_credentials_t vp_cc(void *p) { return p == (void *)&c ? CRED : NULL; }
static gnutls_certificate_credentials_t vp_sc(void *p) { return p == (void *)&sv ? CRED : NULL; }
#undef tls_client_get_cred
#undef tls_server_get_cred
#define tls_client_get_cred(p) vp_cc(p)
#define tls_server_get_cred(p) vp_sc(p)
#endif
#include "tls_sock.c"
static void vp_main(void)
{
    static tls_sock_t s;
    static tls_ssock_t ss;
    vp_init();
    c.cred = sv.cred = CRED;
    const char *name = NULL;
    int r;
#ifdef VP_CBMC
    const int server = VP_SIDE;
#else
    int server = FLAG();
#endif
    if (server)
    {
        memset(&ss, 0, sizeof ss);
        ss.server = &sv;
        ss.sd = 5;
        ss.timeout = 30;
        r = tls_ssock_accept(&ss, &s);
    }
    else
    {
        name = FLAG() ? f_name : NULL;
        r = tls_sock_open(&s, &c, "h", "p", name, 30);
    }
    CHECK(r <= 0, "result");
    if (r == SOCK_OK)
    {
        vp_peer(name);
        CHECK(s.session == SESS && (A.s_flags == GNUTLS_SERVER) == server, "session of this peer");
        CHECK(!server || A.hs == 2, "a certificate was required from the client in the handshake");
        CHECK(A.fd == 1, "one socket");
        VP_REACH("accepted");
    }
    else
    {
        VP_REACH("refused");
        CHECK(A.fail || A.hs == 0, "a trusted peer is not refused");
        CHECK(A.fd == 0 && A.sess == 0 && A.crt == 0, "every object is released");
    }
}
#endif
#ifdef VP_CBMC
void vp_harness(void) { vp_main(); }
#else
static int vp_run(void) { vp_main(); return 0; }
#endif
