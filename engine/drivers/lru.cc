// Instantiates every member of the cache template so that all of it is
// analysed, used by the aggregators or not.
#include <functional>
#include <string>
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"
namespace verif_lru { struct Val; using Del = std::function<void(Val*)>; }
namespace google { namespace service_control_client {
using VerifMap = std::unordered_map<std::string, SimpleLRUCacheElem<std::string, verif_lru::Val>*,
    internal::SimpleLRUHash<std::string>, std::equal_to<std::string>>;
using B = SimpleLRUCacheBase<std::string, verif_lru::Val, VerifMap, std::equal_to<std::string>>;
using D = SimpleLRUCacheWithDeleter<std::string, verif_lru::Val, verif_lru::Del>;
}}
using namespace google::service_control_client;
namespace verif_lru {
// One entry function per public operation: thin, no logic of its own.
void vt_SetMaxSize(D* c, int64_t n) { c->SetMaxSize(n); }
void vt_SetMaxIdleSeconds(D* c, double s) { c->SetMaxIdleSeconds(s); }
void vt_SetAgeBasedEviction(D* c, double s) { c->SetAgeBasedEviction(s); }
Val* vt_Lookup(D* c, const std::string& k) { return c->Lookup(k); }
Val* vt_LookupWithOptions(D* c, const std::string& k, const SimpleLRUCacheOptions& o) { return c->LookupWithOptions(k, o); }
void vt_Release(D* c, const std::string& k, Val* v) { c->Release(k, v); }
void vt_ReleaseWithOptions(D* c, const std::string& k, Val* v, const SimpleLRUCacheOptions& o) { c->ReleaseWithOptions(k, v, o); }
void vt_Insert(D* c, const std::string& k, Val* v, size_t u) { c->Insert(k, v, u); }
void vt_InsertPinned(D* c, const std::string& k, Val* v, size_t u) { c->InsertPinned(k, v, u); }
void vt_UpdateSize(D* c, const std::string& k, const Val* v, size_t u) { c->UpdateSize(k, v, u); }
bool vt_StillInUse(const D* c, const std::string& k, const Val* v) { return c->StillInUse(k, v); }
void vt_Remove(D* c, const std::string& k) { c->Remove(k); }
void vt_RemoveAll(D* c) { c->RemoveAll(); }
void vt_RemoveUnpinned(D* c) { c->RemoveUnpinned(); }
void vt_Clear(D* c) { c->Clear(); }
void vt_RemoveExpiredEntries(D* c) { c->RemoveExpiredEntries(); }
int64_t vt_Size(const D* c) { return c->Size(); }
int64_t vt_Entries(const D* c) { return c->Entries(); }
int64_t vt_PinnedSize(const D* c) { return c->PinnedSize(); }
int64_t vt_DeferredSize(const D* c) { return c->DeferredSize(); }
int64_t vt_DeferredEntries(const D* c) { return c->DeferredEntries(); }
int64_t vt_MaxSize(const D* c) { return c->MaxSize(); }
void vt_ScopedLookup(D* c, const std::string& k) { D::ScopedLookup l(c, k); }
D* vt_New(int64_t n, Del d) { return new D(n, d); }
}
