// streams: encrypted files, files, strings; AES primitives
#include "api/declare_module.h"
#include "api/declare_tensor.h"
#include "encryption/encrypted_fstream.h"
#include "module/io/sstream.h"
#include "module/io/fstream.h"
#include "core/tensor_builder.h"
#include <cstring>
#include <string>
#include "encryption/aes.h"
using namespace ts;
static thread_local std::string g_buf, g_err;
#define G(...) try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); return -1; }
#define N(...) try { __VA_ARGS__ } catch (const std::exception &e) { g_err = e.what(); return nullptr; }
extern "C" {
const char *tv_err() { return g_err.c_str(); }
const char *tv_buf() { return g_buf.data(); }
// kind: 0 encrypted, 1 plain, 2 plain with rewind
struct tv_r { EncryptedFileStreamReader *e = nullptr; FileStreamReader *f = nullptr; FileStreamReaderV2 *v = nullptr; };
struct tv_w { EncryptedFileStreamWriter *e = nullptr; FileStreamWriter *f = nullptr; };
static StreamReader &r(tv_r *h) { if (h->e) return *h->e; if (h->f) return *h->f; return *h->v; }
tv_r *tv_r_new(int kind, const char *path, const char *key, int64_t n) {
    N(auto h = new tv_r;
      if (kind == 0) h->e = new EncryptedFileStreamReader(path, std::string(key, size_t(n)));
      else if (kind == 1) h->f = new FileStreamReader(path);
      else h->v = new FileStreamReaderV2(path);
      return h;)
}
int64_t tv_r_open(tv_r *h) { G(return h->e ? h->e->is_open() : h->f ? h->f->is_open() : h->v->is_open();) }
int64_t tv_r_read(tv_r *h, char *buf, int64_t n) { G(return int64_t(r(h).read(buf, size_t(n)));) }
int64_t tv_r_rewind(tv_r *h) { G(h->v->rewind(); return 0;) }
int64_t tv_r_close(tv_r *h) { G(if (h->e) h->e->close(); else if (h->f) h->f->close(); else h->v->close(); return 0;) }
void tv_r_free(tv_r *h) { delete h->e; delete h->f; delete h->v; delete h; }
ts_Module *tv_r_module(tv_r *h) { N(return new ts_Module(Module::Load(r(h)));) }
ts_Tensor *tv_r_tensor(tv_r *h) { N(return new ts_Tensor(tensor::load(r(h)));) }
static StreamWriter &w(tv_w *h) { if (h->e) return *h->e; return *h->f; }
tv_w *tv_w_new(int kind, const char *path, const char *key, int64_t n) {
    N(auto h = new tv_w;
      if (kind == 0) h->e = new EncryptedFileStreamWriter(path, std::string(key, size_t(n)));
      else h->f = new FileStreamWriter(path);
      return h;)
}
int64_t tv_w_open(tv_w *h) { G(return h->e ? h->e->is_open() : h->f->is_open();) }
int64_t tv_w_write(tv_w *h, const char *buf, int64_t n) { G(return int64_t(w(h).write(buf, size_t(n)));) }
// 1 if the failure of a plain stream shows in its state
int64_t tv_w_close(tv_w *h) { G(if (h->e) h->e->close(); else { h->f->close(); return h->f->stream().fail(); } return 0;) }
void tv_w_free(tv_w *h) { delete h->e; delete h->f; delete h; }
int64_t tv_w_module(tv_w *h, const ts_Module *m) { G(Module::Save(w(h), m->pointer); return 0;) }
int64_t tv_w_tensor(tv_w *h, const ts_Tensor *t) { G(tensor::save(w(h), *t->pointer); return 0;) }
int64_t tv_module_save_path(const ts_Module *m, const char *path) { G(Module::Save(std::string(path), m->pointer); return 0;) }
// string streams. kind: 0 reader, 1 writer, 2 both
struct tv_s { StringStreamReader *r = nullptr; StringStreamWriter *w = nullptr; StringStream *s = nullptr; };
tv_s *tv_s_new(int kind, const char *b, int64_t n) {
    N(auto h = new tv_s; std::string q(b ? b : "", size_t(n < 0 ? 0 : n));
      if (kind == 0) h->r = n < 0 ? new StringStreamReader : new StringStreamReader(q);
      else if (kind == 1) h->w = n < 0 ? new StringStreamWriter : new StringStreamWriter(q);
      else h->s = n < 0 ? new StringStream : new StringStream(q);
      return h;)
}
int64_t tv_s_read(tv_s *h, char *b, int64_t n) { G(return int64_t(h->r ? h->r->read(b, size_t(n)) : h->s->read(b, size_t(n)));) }
int64_t tv_s_write(tv_s *h, const char *b, int64_t n) { G(return int64_t(h->w ? h->w->write(b, size_t(n)) : h->s->write(b, size_t(n)));) }
int64_t tv_s_set(tv_s *h, const char *b, int64_t n) { G(std::string q(b, size_t(n)); if (h->r) h->r->str(q); else if (h->w) h->w->str(q); else h->s->str(q); return 0;) }
int64_t tv_s_get(tv_s *h) { G(g_buf = h->r ? h->r->str() : h->w ? h->w->str() : h->s->str(); return int64_t(g_buf.size());) }
int64_t tv_s_clear(tv_s *h) { G(if (h->r) h->r->clear(); else if (h->w) h->w->clear(); else h->s->clear(); return 0;) }
void tv_s_free(tv_s *h) { delete h->r; delete h->w; delete h->s; delete h; }
// AES. key and iv are copied to blocks of exactly their size, so that reading beyond them is seen
AES_ctx *tv_aes_new(const char *key, uint32_t nk, const char *iv, int32_t ni) {
    auto c = new AES_ctx;
    auto k = new uint8_t[nk];
    std::memcpy(k, key, nk);
    if (ni < -1) AES_init_ctx(c, k, nk);
    else if (ni < 0) AES_init_ctx_iv(c, k, nk);
    else { auto v = new uint8_t[ni]; std::memcpy(v, iv, size_t(ni)); AES_init_ctx_iv(c, k, nk, v, uint32_t(ni)); delete[] v; }
    delete[] k;
    return c;
}
void tv_aes_iv(AES_ctx *c, const char *iv) { AES_ctx_set_iv(c, reinterpret_cast<const uint8_t *>(iv)); }
void tv_aes_run(AES_ctx *c, int mode, char *buf, uint32_t n) {
    auto p = reinterpret_cast<uint8_t *>(buf);
    if (mode == 0) AES_ECB_encrypt(c, p);
    else if (mode == 1) AES_ECB_decrypt(c, p);
    else if (mode == 2) AES_CBC_encrypt_buffer(c, p, n);
    else if (mode == 3) AES_CBC_decrypt_buffer(c, p, n);
    else AES_CTR_xcrypt_buffer(c, p, n);
}
void tv_aes_free(AES_ctx *c) { delete c; }
}
