/* Calls the library through its public C header only: a header that disagrees with the library
 * about a value, a layout or an argument order misbehaves here as it would in a user's program. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "dcv_color_primitives.h"

int shim_pixel_format(int i) {
    static const DcpPixelFormat v[] = {
        DCP_PIXEL_FORMAT_ARGB, DCP_PIXEL_FORMAT_BGRA, DCP_PIXEL_FORMAT_BGR, DCP_PIXEL_FORMAT_RGBA,
        DCP_PIXEL_FORMAT_RGB, DCP_PIXEL_FORMAT_I444, DCP_PIXEL_FORMAT_I422, DCP_PIXEL_FORMAT_I420,
        DCP_PIXEL_FORMAT_NV12 };
    return (int)v[i];
}

int shim_color_space(int i) {
    static const DcpColorSpace v[] = {
        DCP_COLOR_SPACE_RGB, DCP_COLOR_SPACE_BT601, DCP_COLOR_SPACE_BT709, DCP_COLOR_SPACE_BT601FR,
        DCP_COLOR_SPACE_BT709FR, DCP_COLOR_SPACE_LRGB };
    return (int)v[i];
}

int shim_constant(int i) {
    switch (i) {
    case 0: return DCP_RESULT_OK;
    case 1: return DCP_RESULT_ERR;
    case 2: return DCP_ERROR_KIND_INVALID_VALUE;
    case 3: return DCP_ERROR_KIND_INVALID_OPERATION;
    case 4: return DCP_ERROR_KIND_NOT_ENOUGH_DATA;
    case 5: return DCP_STRIDE_AUTO == 0;
    case 6: return (int)sizeof(DcpImageFormat);
    case 7: return (int)sizeof(DcpErrorKind);
    case 8: return (int)sizeof(DcpResult);
    default: return -1;
    }
}

/* num_planes is written through the field, whatever its place in the structure */
void shim_format(void *out, int pf, int cs, uint32_t planes) {
    DcpImageFormat f;
    memset(&f, 0, sizeof f);
    f.pixel_format = (DcpPixelFormat)pf;
    f.color_space = (DcpColorSpace)cs;
    f.num_planes = planes;
    memcpy(out, &f, sizeof f);
}

/* 0: ok, 1: error, other: a value outside of the enumeration */
int shim_convert(uint32_t w, uint32_t h, const void *sf, const size_t *ss, const uint8_t *const *sb,
                 const void *df, const size_t *ds, uint8_t *const *db, void *err) {
    DcpResult r = dcp_convert_image(w, h, (const DcpImageFormat *)sf, ss, sb,
                                    (const DcpImageFormat *)df, ds, db, (DcpErrorKind *)err);
    return r == DCP_RESULT_OK ? 0 : r == DCP_RESULT_ERR ? 1 : 2;
}

int shim_sizes(uint32_t w, uint32_t h, const void *f, const size_t *s, size_t *out, void *err) {
    DcpResult r = dcp_get_buffers_size(w, h, (const DcpImageFormat *)f, s, out, (DcpErrorKind *)err);
    return r == DCP_RESULT_OK ? 0 : r == DCP_RESULT_ERR ? 1 : 2;
}

/* Value of an error variable: position in the documented enumeration, or -1 */
int shim_error(const void *err) {
    DcpErrorKind e;
    memcpy(&e, err, sizeof e);
    return e == DCP_ERROR_KIND_INVALID_VALUE ? 0 : e == DCP_ERROR_KIND_INVALID_OPERATION ? 1 :
           e == DCP_ERROR_KIND_NOT_ENOUGH_DATA ? 2 : -1;
}

char *shim_describe(void) { return dcp_describe_acceleration(); }
void shim_unref(char *s) { dcp_unref_string(s); }
