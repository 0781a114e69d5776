/*
 * This file has been automatically generated by the jrl-cmakemodules.
 * Please see https://github.com/jrl-umi3218/jrl-cmakemodules/blob/master/deprecated.hh.cmake for details.
*/

#ifndef TVM_DEPRECATED_HH
# define TVM_DEPRECATED_HH

// Define a suffix which can be used to tag a type, a function or a a
// variable as deprecated (i.e. it will emit a warning when using it).
//
// Tagging a function as deprecated:
//  void foo () TVM_DEPRECATED;
//
// Tagging a type as deprecated:
//  class Foo {};
//  typedef Foo Bar TVM_DEPRECATED;
//
// Tagging a variable as deprecated:
//  int a TVM_DEPRECATED = 0;
//
// The use of a macro is required as this is /not/ a standardized
// feature of C++ language or preprocessor, even if most of the
// compilers support it.
# if defined(__cplusplus) && (__cplusplus >= 201402L)
#  define TVM_DEPRECATED [[deprecated]]
#  define TVM_DEPRECATED_MESSAGE(message) [[deprecated(#message)]]
# elif defined(__GNUC__) || defined(__clang__)
#  define TVM_DEPRECATED __attribute__ ((deprecated))
#  define TVM_DEPRECATED_MESSAGE(message) __attribute__ (( deprecated(#message) ))
# else
#  if defined(_MSC_VER) && !defined(__INTEL_COMPILER)
#   define TVM_DEPRECATED __declspec (deprecated)
#   define TVM_DEPRECATED_MESSAGE(message) __declspec ( deprecated(#message) )
#  else
// If the compiler is not recognized, drop the feature.
#   define TVM_DEPRECATED /* nothing */
#   define TVM_DEPRECATED_MESSAGE(message)
#  endif // __MSVC__
# endif // __cplusplus

# if defined(__GNUC__) || defined(__clang__)
#  ifndef TVM_PRAGMA
#   define TVM_PRAGMA(X) _Pragma(#X)
#  endif
#  define TVM_DEPRECATED_HEADER(MSG) TVM_PRAGMA(GCC warning MSG)
# elif defined(_MSC_VER) && !defined(__INTEL_COMPILER)
#  define TVM_STRINGIZE_(MSG) #MSG
#  define TVM_STRINGIZE(MSG) TVM_STRINGIZE_(MSG)
#  define TVM_DEPRECATED_HEADER(MSG) \
    __pragma(message(__FILE__ "(" TVM_STRINGIZE(__LINE__) ") : Warning: " MSG))
# else
#  define TVM_DEPRECATED_HEADER(MSG)
# endif

#endif //! TVM_DEPRECATED_HH
