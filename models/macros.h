// Substitutions active while the cartographer sources are parsed (proof build).
#define vector vc_vector
#define deque vc_deque
#define unique_ptr vc_unique_ptr
#define shared_ptr vc_shared_ptr
#define weak_ptr vc_weak_ptr
#define make_unique vc_make_unique
#define make_shared vc_make_shared
#define function vc_function
#define flat_hash_set vc_flat_hash_set
#define flat_hash_map vc_flat_hash_map
#ifdef VC_SET
#define set vc_set
#endif
#ifdef VC_MAP
#define map vc_map
#endif
#undef CHECK
#undef CHECK_EQ
#undef CHECK_NE
#undef CHECK_LT
#undef CHECK_LE
#undef CHECK_GT
#undef CHECK_GE
#undef CHECK_NOTNULL
#undef CHECK_NEAR
#undef DCHECK
#undef DCHECK_EQ
#undef DCHECK_NE
#undef DCHECK_LT
#undef DCHECK_LE
#undef DCHECK_GT
#undef DCHECK_GE
#undef LOG
#undef LOG_IF
#undef LOG_EVERY_N
#undef LOG_FIRST_N
#undef LOG_IF_EVERY_N
#undef VLOG
#undef DLOG
#define VC_S2(x) #x
#define VC_S(x) VC_S2(x)
#define VC_CHK(c, s) (::vc::check_((c), s)) ? (void)0 : ::vc::Voidify() & ::vc::NullStream()
#define CHECK(c) VC_CHK(static_cast<bool>(c), #c)
#define CHECK_EQ(a, b) VC_CHK((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VC_CHK((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) VC_CHK((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) VC_CHK((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) VC_CHK((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) VC_CHK((a) >= (b), #a " >= " #b)
#define CHECK_NEAR(a, b, m) VC_CHK((a) >= (b) - (m) && (a) <= (b) + (m), #a " near " #b)
#define CHECK_NOTNULL(p) (::vc::notnull_((p), #p))
#define VC_NOLOG true ? (void)0 : ::vc::Voidify() & ::vc::NullStream()
#define DCHECK(c) VC_NOLOG
#define DCHECK_EQ(a, b) VC_NOLOG
#define DCHECK_NE(a, b) VC_NOLOG
#define DCHECK_LT(a, b) VC_NOLOG
#define DCHECK_LE(a, b) VC_NOLOG
#define DCHECK_GT(a, b) VC_NOLOG
#define DCHECK_GE(a, b) VC_NOLOG
#define VC_LOG_INFO VC_NOLOG
#define VC_LOG_WARNING VC_NOLOG
#define VC_LOG_ERROR VC_NOLOG
#define VC_LOG_FATAL VC_CHK(false, "LOG(FATAL)")
#define LOG(s) VC_LOG_##s
#define LOG_IF(s, c) VC_NOLOG
#define LOG_EVERY_N(s, n) VC_NOLOG
#define LOG_FIRST_N(s, n) VC_NOLOG
#define LOG_IF_EVERY_N(s, c, n) VC_NOLOG
#define VLOG(n) VC_NOLOG
#define DLOG(s) VC_NOLOG
