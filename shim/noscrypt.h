/* Stand-in for the noscrypt API (not installed here), implemented over
 * libsecp256k1 + OpenSSL, so that the library's noscrypt-only code
 * (NIP-04/17/44/46/47/59) runs unmodified in the simulator. */
#ifndef SHIM_NOSCRYPT_H
#define SHIM_NOSCRYPT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int64_t NCResult;
#define NC_SUCCESS 0
#define NC_SEC_KEY_SIZE 32
#define NC_PUBKEY_SIZE 32
#define NC_SHARED_SEC_SIZE 32
#define NC_HMAC_KEY_SIZE 32
#define NC_ENCRYPTION_MAC_SIZE 32
#define NC_CONTEXT_ENTROPY_SIZE 32
#define NC_ENC_VERSION_NIP04 4
#define NC_ENC_VERSION_NIP44 44
#define NC_ENC_SET_VERSION 1
#define NC_ENC_SET_NIP44_MAC_KEY 2
#define NC_ENC_SET_IV 3
typedef struct NCContext NCContext;
typedef struct { uint8_t key[NC_SEC_KEY_SIZE]; } NCSecretKey;
typedef struct { uint8_t key[NC_PUBKEY_SIZE]; } NCPublicKey;
typedef struct { uint8_t* nonceData; void* keyData; const uint8_t* inputData; uint8_t* outputData; uint32_t dataSize; uint32_t version; } NCEncryptionArgs;
typedef struct { const uint8_t* mac32; const uint8_t* nonce32; const uint8_t* payload; uint32_t payloadSize; } NCMacVerifyArgs;
NCContext* NCGetSharedContext(void);
NCResult NCInitContext(NCContext*, const uint8_t entropy[32]);
NCResult NCDestroyContext(NCContext*);
NCResult NCGetPublicKey(const NCContext*, const NCSecretKey*, NCPublicKey*);
NCResult NCValidateSecretKey(const NCContext*, const NCSecretKey*);
NCResult NCSignDigest(const NCContext*, const NCSecretKey*, const uint8_t random32[32], const uint8_t digest32[32], uint8_t sig64[64]);
NCResult NCVerifyDigest(const NCContext*, const NCPublicKey*, const uint8_t digest32[32], const uint8_t sig64[64]);
NCResult NCGetSharedSecret(const NCContext*, const NCSecretKey*, const NCPublicKey*, uint8_t* point32);
uint32_t NCEncryptionGetIvSize(uint32_t version);
NCResult NCEncryptionSetProperty(NCEncryptionArgs*, uint32_t prop, uint32_t value);
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs*, uint32_t prop, uint8_t* value, uint32_t len);
NCResult NCEncryptionSetData(NCEncryptionArgs*, const uint8_t* in, uint8_t* out, uint32_t len);
NCResult NCEncrypt(const NCContext*, const NCSecretKey*, const NCPublicKey*, NCEncryptionArgs*);
NCResult NCDecrypt(const NCContext*, const NCSecretKey*, const NCPublicKey*, NCEncryptionArgs*);
NCResult NCComputeMac(const NCContext*, const uint8_t hmacKey[32], const uint8_t* payload, uint32_t len, uint8_t out[32]);
NCResult NCVerifyMac(const NCContext*, const NCSecretKey*, const NCPublicKey*, NCMacVerifyArgs*);
#ifdef __cplusplus
}
#endif
#endif
