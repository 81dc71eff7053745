// Independent NIP-44 version 2 and base64 reference.
#pragma once
#include "op.h"
#include <openssl/hmac.h>
#include <secp256k1_ecdh.h>
static inline std::string hmac256(const std::string& k, const std::string& d) { unsigned char o[32]; unsigned l = 32; HMAC(EVP_sha256(), k.data(), (int)k.size(), (const unsigned char*)d.data(), d.size(), o, &l); return std::string((char*)o, 32); }
static inline int ref_copy_x(unsigned char* o, const unsigned char* x, const unsigned char*, void*) { memcpy(o, x, 32); return 1; }
static inline std::string ref_ecdh(const std::string& sk, const std::string& pk) { unsigned char b[33] = {2}, o[32]; memcpy(b + 1, pk.data(), 32); secp256k1_pubkey p; if (pk.size() != 32 || !secp256k1_ec_pubkey_parse(refctx(), &p, b, 33) || !secp256k1_ecdh(refctx(), o, &p, (const unsigned char*)sk.data(), ref_copy_x, nullptr)) return ""; return std::string((char*)o, 32); }
static inline std::string b64e(const std::string& d) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = (uint32_t)(uint8_t)d[i] << 16 | (i + 1 < d.size() ? (uint32_t)(uint8_t)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (uint8_t)d[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < d.size() ? A[v >> 6 & 63] : '='; o += i + 2 < d.size() ? A[v & 63] : '='; } return o; }
static inline bool b64d(const std::string& s, std::string& o) { static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; o.clear(); if (s.size() % 4) return false; for (size_t i = 0; i < s.size(); i += 4) { uint32_t v = 0; int pad = 0; for (int k = 0; k < 4; k++) { char c = s[i + k]; if (c == '=' && i + 4 == s.size() && k >= 2) { pad++; v <<= 6; continue; } size_t p = A.find(c); if (p == std::string::npos || pad) return false; v = v << 6 | (uint32_t)p; } o += (char)(v >> 16); if (pad < 2) o += (char)(v >> 8); if (pad < 1) o += (char)v; if ((pad == 1 && (v & 0xff)) || (pad == 2 && (v & 0xffff))) return false; } return true; }
static inline size_t n44_padded(size_t n) { if (n <= 32) return 32; size_t p = 1; while (p < n) p <<= 1; size_t c = p <= 256 ? 32 : p / 8; return c * ((n - 1) / c + 1); }
static inline std::string n44_conv(const std::string& sk, const std::string& pk) { std::string x = ref_ecdh(sk, pk); return x.empty() ? "" : hmac256("nip44-v2", x); }
static inline std::string n44_keys(const std::string& conv, const std::string& nonce) { std::string t, o; for (char i = 1; o.size() < 76; i++) { t = hmac256(conv, t + nonce + i); o += t; } return o.substr(0, 76); }
static inline std::string n44_stream(const std::string& k, const std::string& d) { std::string iv = std::string(4, 0) + k.substr(32, 12), o(d.size(), 0); EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); int l; EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, (const unsigned char*)k.data(), (const unsigned char*)iv.data()); EVP_EncryptUpdate(c, (unsigned char*)&o[0], &l, (const unsigned char*)d.data(), (int)d.size()); EVP_CIPHER_CTX_free(c); return o; }
static inline std::string n44_pad(const std::string& pt) { return std::string(1, (char)(pt.size() >> 8)) + (char)pt.size() + pt + std::string(n44_padded(pt.size()) - pt.size(), 0); }
static inline std::string n44_seal(const std::string& conv, const std::string& nonce, const std::string& padded) { std::string k = n44_keys(conv, nonce), ct = n44_stream(k, padded); return std::string(1, 2) + nonce + ct + hmac256(k.substr(44), nonce + ct); }
static inline std::string n44_encrypt(const std::string& conv, const std::string& nonce, const std::string& pt) { return b64e(n44_seal(conv, nonce, n44_pad(pt))); }
static inline bool n44_open(const std::string& conv, const std::string& raw, std::string& pt, std::string* nonce_out = nullptr) {
    if (raw.size() < 99 || raw.size() > 65603 || raw[0] != 2 || conv.empty()) return false; std::string nonce = raw.substr(1, 32), ct = raw.substr(33, raw.size() - 65), k = n44_keys(conv, nonce); if (hmac256(k.substr(44), nonce + ct) != raw.substr(raw.size() - 32)) return false; std::string p = n44_stream(k, ct); size_t n = (size_t)(uint8_t)p[0] << 8 | (uint8_t)p[1]; if (nonce_out) *nonce_out = nonce;
    if (!n || p.size() != 2 + n44_padded(n)) return false; for (size_t i = 2 + n; i < p.size(); i++) if (p[i]) return false; pt = p.substr(2, n); return true;
}
static inline bool n44_decrypt(const std::string& conv, const std::string& text, std::string& pt, std::string* nonce_out = nullptr) { std::string raw; return b64d(text, raw) && n44_open(conv, raw, pt, nonce_out); }
// ties the reference to the published vectors
static inline void n44_selfcheck() {
    static bool done = false; if (done) return; done = true; std::string a = std::string(31, 0) + '\1', b = std::string(31, 0) + '\2'; std::string conv = n44_conv(a, ref_pub(b));
    static const int pads[][2] = {{16, 32}, {32, 32}, {33, 64}, {65, 96}, {100, 128}, {111, 128}, {200, 224}, {250, 256}, {320, 320}, {383, 384}, {400, 448}, {500, 512}, {515, 640}, {700, 768}, {800, 896}, {900, 1024}, {1020, 1024}, {65535, 65536}}; for (auto& p : pads) if (n44_padded((size_t)p[0]) != (size_t)p[1]) violate("harness", "the padding reference is wrong at %d", p[0]);
    static const std::string tail = "ee0G5VSK0/9YypIObAtDKfYEAjD35uVkHyB0F4DwrcNaCXlCWZKaArsGrY6M9wnuTMxWfp1RTN9Xga8no+kF5Vsb"; std::string t = n44_encrypt(conv, a, "a");
    if (hex(conv.data(), 32) != "c41c775356fd92eadc63ff5a0dc1da211b268cbea22316767095b2871ea1412d" || t.size() < tail.size() || t.substr(t.size() - tail.size()) != tail) violate("harness", "the NIP-44 reference does not give the published payload: %s", t.c_str());
}
