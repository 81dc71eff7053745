#!/usr/bin/env python3
"""Build the simulator binaries from /repo's current working tree.

One binary per library configuration.  The library's own sources are compiled
unmodified; its calls to the allocator, threads, clock, randomness, environment
and websocket library are redirected by renaming undefined symbols in its
object file (objcopy --redefine-syms)."""
import hashlib, os, re, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"
COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-common", "-pthread", "-D_GNU_SOURCE"]
LIBFLAGS = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-w", "-fno-builtin-malloc", "-fno-inline-functions", "-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=pattern"]
BASE = {"NIP05", "NIP10", "NIP13", "NIP18", "NIP25", "NIP26", "NIP49", "NIP51", "NIP57", "NIP65", "RELAY", "RELAY_PROTOCOL", "HD_KEYS", "JSON_ENHANCED", "THREADING", "CRYPTO_SECP256K1"}
NOS = {"NIP04", "NIP17", "NIP44", "NIP46", "NIP47", "NIP59", "CRYPTO_NOSCRYPT"}
HAVE = {"SECP256K1", "CJSON", "LIBWEBSOCKETS", "UTF8PROC", "SCHNORRSIG_SIGN32"}
VARIANTS = {
    "ossl": dict(feat=BASE, have=HAVE, libs=["-lsecp256k1", "-lcjson", "-lutf8proc", "-lssl", "-lcrypto"]),
    "mbed": dict(feat=BASE, have=HAVE | {"MBEDTLS"}, libs=["-lsecp256k1", "-lcjson", "-lutf8proc", "-lmbedcrypto", "-lcrypto"]),
    "nos":  dict(feat=BASE | NOS, have=HAVE | {"NOSCRYPT"}, libs=["-lsecp256k1", "-lcjson", "-lutf8proc", "-lssl", "-lcrypto"]),
    "nosm": dict(feat=BASE | (NOS - {"NIP04"}), have=HAVE | {"NOSCRYPT", "MBEDTLS"}, libs=["-lsecp256k1", "-lcjson", "-lutf8proc", "-lmbedcrypto", "-lcrypto"]),
}
VARIANTS["min"] = dict(feat=BASE - {"JSON_ENHANCED", "RELAY"}, have=HAVE - {"CJSON", "LIBWEBSOCKETS"}, libs=VARIANTS["ossl"]["libs"])
VARIANTS["nosj"] = dict(feat=(BASE | NOS) - {"JSON_ENHANCED", "RELAY"}, have=(HAVE | {"NOSCRYPT"}) - {"CJSON", "LIBWEBSOCKETS"}, libs=VARIANTS["nos"]["libs"])
SEAM = """malloc calloc realloc reallocarray free strdup strndup asprintf
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_once pthread_create pthread_join pthread_detach usleep sleep nanosleep clock_nanosleep sched_yield
time clock_gettime gettimeofday clock getenv secure_getenv sysconf RAND_bytes RAND_priv_bytes getrandom getentropy rand random srand
lws_create_context lws_context_destroy lws_client_connect_via_info lws_service lws_service_tsi lws_cancel_service lws_cancel_service_pt
lws_callback_on_writable lws_write lws_set_opaque_user_data lws_get_opaque_user_data lws_close_reason lws_is_final_fragment
lws_is_first_fragment lws_remaining_packet_payload lws_frame_is_binary lws_get_context lws_context_user lws_wsi_user lws_set_wsi_user
lws_set_timeout lws_set_log_level lws_partial_buffered lws_send_pipe_choked lws_get_protocol
EVP_CIPHER_CTX_new EVP_MD_CTX_new EVP_MD_CTX_create BIO_new BIO_new_mem_buf EVP_EncryptInit_ex EVP_EncryptUpdate EVP_EncryptFinal_ex EVP_DecryptInit_ex EVP_DecryptUpdate EVP_DecryptFinal_ex
EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex HMAC EVP_PBE_scrypt PKCS5_PBKDF2_HMAC EVP_Digest SHA256 EVP_MAC_fetch EVP_MAC_CTX_new
EVP_CIPHER_CTX_ctrl EVP_KDF_fetch EVP_KDF_CTX_new
secp256k1_context_create secp256k1_context_destroy secp256k1_ec_pubkey_create secp256k1_ec_pubkey_parse secp256k1_ec_pubkey_serialize secp256k1_ec_seckey_tweak_add
secp256k1_ec_seckey_verify secp256k1_ecdh secp256k1_keypair_create secp256k1_keypair_xonly_pub secp256k1_schnorrsig_sign32 secp256k1_schnorrsig_verify
secp256k1_xonly_pubkey_from_pubkey secp256k1_xonly_pubkey_parse secp256k1_xonly_pubkey_serialize secp256k1_context_randomize utf8proc_NFKD mbedtls_ctr_drbg_seed mbedtls_ctr_drbg_random mbedtls_ctr_drbg_init mbedtls_ctr_drbg_free mbedtls_entropy_init mbedtls_entropy_free mbedtls_entropy_func""".split()

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f: return f.read()

def features(v):
    d = VARIANTS[v]
    out = ["#ifndef NOSTR_FEATURES_H", "#define NOSTR_FEATURES_H", "#ifdef __cplusplus", 'extern "C" {', "#endif"]
    tpl = read(os.path.join(REPO, "include/nostr_features.h.in")).decode()
    for line in tpl.splitlines():
        m = re.match(r"#cmakedefine\s+(\w+)", line)
        if m:
            n = m.group(1)
            on = (n.startswith("NOSTR_FEATURE_") and n[14:] in d["feat"]) or (n.startswith("HAVE_") and n[5:] in d["have"])
            out.append(f"#define {n}" if on else f"/* #undef {n} */")
        elif re.match(r"#define NOSTR_FEATURE_", line):
            out.append(re.sub(r"@\w+@", "1", line))
        elif re.match(r"^(int|const char\*)\s+nostr_feature", line):
            out.append(line)
    out += ["#ifdef __cplusplus", "}", "#endif", "#endif", ""]
    return "\n".join(out)

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write("BUILD FAILED: " + " ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:] + "\n")
        raise SystemExit(3)

def headers_hash():
    hs = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "include"))):
        for f in sorted(fs): hs.append(f); hs.append(read(os.path.join(d, f)))
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            if not f.endswith(".c"): hs.append(f); hs.append(read(os.path.join(d, f)))
    return sha(*hs) if hs else ""

def cached(out, cmd, deps_key):
    """compile unless an object for the same inputs exists"""
    if os.path.exists(out): return
    tmp = out + ".tmp%d" % os.getpid()
    run([x if x != "@OUT" else tmp for x in cmd]); os.rename(tmp, out)

def build(v, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock." + v), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    d = VARIANTS[v]; obj = os.path.join(BUILD, "obj"); os.makedirs(obj, exist_ok=True)
    fh = features(v); hh = headers_hash()
    inc = os.path.join(BUILD, "inc-" + v + "-" + sha(fh)); os.makedirs(inc, exist_ok=True)
    fp = os.path.join(inc, "nostr_features.h")
    if not os.path.exists(fp): open(fp, "w").write(fh)
    I = ["-I", inc, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "shim")]
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c"))
    skip = set()
    if not v.startswith("nos"): skip |= {"nip17.c", "nip44.c", "nip46.c", "nip47.c", "nip47_session.c", "nip47_commands.c", "nip59.c"}
    jobs, lobjs = [], []
    for s in srcs:
        if s in skip: continue
        p = os.path.join(REPO, "src", s)
        o = os.path.join(obj, f"l-{v}-{s}-{sha(read(p), hh, fh, str(COMMON + LIBFLAGS), REPO)}.o")
        lobjs.append(o); jobs.append((o, [CC, "-std=gnu11", *COMMON, *LIBFLAGS, *I, "-c", p, "-o", "@OUT"]))
    hobjs = []
    simdir = os.path.join(VERIF, "sim"); simh = sha(*[read(os.path.join(simdir, f)) for f in sorted(os.listdir(simdir)) if f.endswith((".h", ".hpp"))], read(os.path.join(VERIF, "shim/noscrypt.h")))
    hs = [os.path.join(simdir, f) for f in sorted(os.listdir(simdir)) if f.endswith(".cpp")]
    if v.startswith("nos"): hs.append(os.path.join(VERIF, "shim/noscrypt.cpp"))
    for p in hs:
        o = os.path.join(obj, f"h-{v}-{os.path.basename(p)}-{sha(read(p), simh, hh, fh, str(COMMON))}.o")
        hobjs.append(o); jobs.append((o, [CXX, "-std=c++17", "-Wno-unused-result", *COMMON, "-DVARIANT_" + v.upper(), *I, "-I", simdir, "-c", p, "-o", "@OUT"]))
    def there(o):
        try: os.utime(o); return True
        except OSError: return False
    todo = [j for j in jobs if not there(j[0])]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cached(j[0], j[1], None), todo))
    key = sha(*lobjs, *hobjs, " ".join(SEAM), str(d["libs"]))
    binp = os.path.join(BUILD, f"sim-{v}-{key}")
    if not there(binp):
        syms = os.path.join(BUILD, f"seam-{v}.syms")
        open(syms, "w").write("".join(f"{s} sim_{s}\n" for s in SEAM))
        lib = os.path.join(BUILD, f"lib-{v}.o.tmp")
        run(["ld", "-r", "-o", lib, *lobjs])
        run(["objcopy", "--redefine-syms=" + syms, lib])
        tmp = binp + ".tmp"
        run([CXX, *COMMON, "-rdynamic", "-no-pie", "-o", tmp, *hobjs, lib, *d["libs"], "-lwebsockets"])
        os.rename(tmp, binp); os.remove(lib)
    # keep the cache small
    import time
    keep = set(lobjs + hobjs + [binp])
    for dd in (obj, BUILD):
        es = [os.path.join(dd, f) for f in os.listdir(dd)]
        es = [e for e in es if os.path.isfile(e) and (dd == obj or os.path.basename(e).startswith("sim-")) and e not in keep]
        def mtime(e):
            try: return os.path.getmtime(e)
            except OSError: return 0
        es.sort(key=mtime)
        for e in es[:max(0, len(es) - (600 if dd == obj else 12))]:
            if mtime(e) > time.time() - 1800: break      # another variant's build may be using it
            try: os.remove(e)
            except OSError: pass
    return binp

if __name__ == "__main__":
    for v in (sys.argv[1:] or VARIANTS): print(build(v))
