#include <vf.h>
#undef BOOST_ASSERT
#undef BOOST_ASSERT_MSG
#undef BOOST_VERIFY
#define BOOST_ASSERT(e) __vf_assert(e)
#define BOOST_ASSERT_MSG(e, m) __vf_assert(e)
#define BOOST_VERIFY(e) __vf_assert(e)
