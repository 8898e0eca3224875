/* What the repository's own configure step finds in this sandbox. */
#define HAVE_DYNAMIC_BOOST_TEST 1
#define HAVE_SUITESPARSE_UMFPACK_H 1
#define HAVE_NULLPTR 1
#define HAVE_STATIC_ASSERT 1
