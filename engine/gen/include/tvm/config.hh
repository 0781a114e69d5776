/*
 * This file has been automatically generated by the jrl-cmakemodules.
 * Please see https://github.com/jrl-umi3218/jrl-cmakemodules/blob/master/config.hh.cmake for details.
*/

#ifndef TVM_CONFIG_HH
# define TVM_CONFIG_HH

// Package version (header).
# define TVM_VERSION_UNKNOWN_TAG 0 // Used to mention that the current version is unknown.
# define TVM_VERSION "0.9.5"
# define TVM_MAJOR_VERSION 0
# define TVM_MINOR_VERSION 9
# define TVM_PATCH_VERSION 5

#define TVM_VERSION_AT_LEAST(major, minor, patch) (TVM_MAJOR_VERSION>major || (TVM_MAJOR_VERSION>=major && \
                                                             (TVM_MINOR_VERSION>minor || (TVM_MINOR_VERSION>=minor && \
                                                                                                     TVM_PATCH_VERSION>=patch))))

#define TVM_VERSION_AT_MOST(major, minor, patch) (TVM_MAJOR_VERSION<major || (TVM_MAJOR_VERSION<=major && \
                                                            (TVM_MINOR_VERSION<minor || (TVM_MINOR_VERSION<=minor && \
                                                                                                     TVM_PATCH_VERSION<=patch))))

// Handle portable symbol export.
// Defining manually which symbol should be exported is required
// under Windows whether MinGW or MSVC is used.
//
// The headers then have to be able to work in two different modes:
// - dllexport when one is building the library,
// - dllimport for clients using the library.
//
// On Linux, set the visibility accordingly. If C++ symbol visibility
// is handled by the compiler, see: http://gcc.gnu.org/wiki/Visibility
//
// Explicit template instantiation on Windows need to add
// dllexport on the definition and dllimport on the declaration.
// The XXX_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI macro
// should be set on the declaration while
// the XXX_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI macro
// should be set on the definition.
# if defined _WIN32 || defined __CYGWIN__
// On Microsoft Windows, use dllimport and dllexport to tag symbols.
#  define TVM_DLLIMPORT __declspec(dllimport)
#  define TVM_DLLEXPORT __declspec(dllexport)
#  define TVM_DLLLOCAL
#  define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT __declspec(dllimport)
#  define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT
#  define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT __declspec(dllimport)
#  define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT __declspec(dllexport)
# else
// On Linux, for GCC >= 4, tag symbols using GCC extension.
#  if __GNUC__ >= 4
#   define TVM_DLLIMPORT __attribute__ ((visibility("default")))
#   define TVM_DLLEXPORT __attribute__ ((visibility("default")))
#   define TVM_DLLLOCAL  __attribute__ ((visibility("hidden")))
#   define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT __attribute__ ((visibility("default")))
#   define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT __attribute__ ((visibility("default")))
#   define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT
#   define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT
#  else
// Otherwise (GCC < 4 or another compiler is used), export everything.
#   define TVM_DLLIMPORT
#   define TVM_DLLEXPORT
#   define TVM_DLLLOCAL
#   define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT
#   define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT
#   define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT
#   define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT
#  endif // __GNUC__ >= 4
# endif // defined _WIN32 || defined __CYGWIN__

# ifdef TVM_STATIC
// If one is using the library statically, get rid of
// extra information and use standard explicit template
// instantiation keyword.
#  define TVM_DLLAPI
#  define TVM_LOCAL
#  define TVM_EXPLICIT_INSTANTIATION_DECLARATION extern template
# else
// Depending on whether one is building or using the
// library define DLLAPI to import or export and
// define the right explicit template instantiation keyword.
#  ifdef tvm_EXPORTS
#   define TVM_DLLAPI TVM_DLLEXPORT
#   define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLEXPORT
#   define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLEXPORT
#  else
#   define TVM_DLLAPI TVM_DLLIMPORT
#   define TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI TVM_EXPLICIT_INSTANTIATION_DECLARATION_DLLIMPORT
#   define TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI TVM_EXPLICIT_INSTANTIATION_DEFINITION_DLLIMPORT
#  endif // TVM_EXPORTS
#  define TVM_LOCAL TVM_DLLLOCAL
# endif // TVM_STATIC
#endif //! TVM_CONFIG_HH
