/* the configuration the analysed build uses (x86-64, SSE2 on, asserts off) */
#define ARCH_X86_64 1
#define HAVE_BOOST_FUNCTIONAL_HASH_HPP 1
#define HAVE_SSE2 1
#define PACKAGE_NAME "alfalfa"
#define PACKAGE_VERSION "0.1"
#define VERSION "0.1"
