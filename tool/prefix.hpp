// Forced include of the analysis runs: turns the Boost export macros (which
// only instantiate serialization code) into inert markers the extractor sees.
#include <cstdint>
#include <boost/serialization/export.hpp>
#undef BOOST_CLASS_EXPORT_IMPLEMENT
#undef BOOST_CLASS_EXPORT_KEY
#undef BOOST_CLASS_EXPORT
#define GF_CAT2(a,b) a##b
#define GF_CAT(a,b) GF_CAT2(a,b)
#define BOOST_CLASS_EXPORT_IMPLEMENT(T) namespace gfacts_export_impl { static T* GF_CAT(gf_, __COUNTER__); }
#define BOOST_CLASS_EXPORT_KEY(T) namespace gfacts_export_key { static T* GF_CAT(gf_, __COUNTER__); }
#define BOOST_CLASS_EXPORT(T)  BOOST_CLASS_EXPORT_IMPLEMENT(T) BOOST_CLASS_EXPORT_KEY(T)
