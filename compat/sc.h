/* Wraps /usr/include/sc.h of apt's libsc 2.3.6: adds what p4est expects of a
 * later libsc.  See the notes in /opt/vp/BUILD.json. */
#ifndef VP_COMPAT_SC_H
#define VP_COMPAT_SC_H

#define SC_DLL_PUBLIC

#include_next <sc.h>

static inline int
sc_have_zlib (void)
{
#ifdef SC_HAVE_ZLIB
  return 1;
#else
  return 0;
#endif
}

/** Return whether the machine is little-endian. */
static inline int
sc_is_littleendian (void)
{
  const uint32_t      one = 1;

  return *(const unsigned char *) &one == 1;
}

#endif
