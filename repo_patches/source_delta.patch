From 058748129d2705fbe504d630e071e615e51e3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 01/66] fix: support 1D arrays in sdp_fft_phase and
 sdp_fft_norm

The documentation of sdp_fft_phase() says that the array can be 1D or 2D,
but 1D arrays were refused.
---
 .../fourier_transforms/sdp_fft.cpp            | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 1d11978..0382212 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -965,8 +965,21 @@ template<typename DATA_TYPE>
 static void fft_norm(sdp_Mem* data, sdp_Error* status)
 {
     if (*status) return;
+    if (sdp_mem_num_dims(data) == 1)
+    {
+        sdp_MemViewCpu<DATA_TYPE, 1> data_1d;
+        sdp_mem_check_and_view(data, &data_1d, status);
+        if (*status) return;
+        const double factor = 1.0 / data_1d.shape[0];
+        for (int64_t ix = 0; ix < data_1d.shape[0]; ++ix)
+        {
+            data_1d(ix) *= factor;
+        }
+        return;
+    }
     sdp_MemViewCpu<DATA_TYPE, 2> data_;
     sdp_mem_check_and_view(data, &data_, status);
+    if (*status) return;
     const int num_x = (int) data_.shape[0];
     const int num_y = (int) data_.shape[1];
     const double factor = 1.0 / (num_x * num_y);
@@ -1047,8 +1060,20 @@ template<typename DATA_TYPE>
 static void fft_phase(sdp_Mem* data, sdp_Error* status)
 {
     if (*status) return;
+    if (sdp_mem_num_dims(data) == 1)
+    {
+        sdp_MemViewCpu<DATA_TYPE, 1> data_1d;
+        sdp_mem_check_and_view(data, &data_1d, status);
+        if (*status) return;
+        for (int64_t ix = 0; ix < data_1d.shape[0]; ++ix)
+        {
+            data_1d(ix) *= (1 - ((ix & 1) << 1));
+        }
+        return;
+    }
     sdp_MemViewCpu<DATA_TYPE, 2> data_;
     sdp_mem_check_and_view(data, &data_, status);
+    if (*status) return;
     const int num_x = (int) data_.shape[0];
     const int num_y = (int) data_.shape[1];
     #pragma omp parallel for
-- 
2.43.0


From ebf4f1c60ae3789934abd8071e4ccf18ebcc016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 02/66] fix: reject slices that extend beyond the source array

sdp_mem_create_wrapper_for_slice() checked the slice offset and the slice
shape separately, but not that their sum stays inside the source array.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..1e20911 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -275,6 +275,18 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
             );
             return 0;
         }
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        if (slice_shape[i_dim_slice] < 0 ||
+                slice_offsets[i_dim_src] + slice_shape[i_dim_slice] >
+                src->shape[i_dim_src])
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_CRITICAL(
+                    "Slice in dimension %d extends beyond the source array",
+                    i_dim_slice
+            );
+            return 0;
+        }
     }
     int64_t offset = 0; // offset in bytes.
     int64_t* stride = (int64_t*) calloc(
-- 
2.43.0


From 8293b6680b21877ec0c31d7db6fdd3198c887b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 03/66] fix: slices and aliases of read-only memory are
 read-only too

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 1e20911..343a42d 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -304,6 +304,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
             src->type, src->location, num_dims_slice, slice_shape, stride,
             status
     );
+    mem->is_read_only = src->is_read_only;
     free(stride);
     return mem;
 }
@@ -315,6 +316,7 @@ sdp_Mem* sdp_mem_create_alias(const sdp_Mem* src)
     sdp_Mem* mem = sdp_mem_create_wrapper(src->data, src->type, src->location,
             src->num_dims, src->shape, src->stride, &status
     );
+    mem->is_read_only = src->is_read_only;
     return mem;
 }
 
-- 
2.43.0


From fad8b6923bf8324e20c7db4ca90fe62b3d17878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 04/66] fix: clear and copy only the elements of strided memory
 blocks

sdp_mem_clear_portion(), sdp_mem_copy_contents() and sdp_mem_create_copy()
treated every block as contiguous, which changed bytes that are not part of
a strided view and overran the allocation of its copy. Ranges outside the
arrays, differing types and read-only destinations are now errors.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 115 ++++++++++++++++++++++++++-
 1 file changed, 111 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 343a42d..64ea0fb 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,79 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Return the byte offset of an element from its C-ordered (flat) index.
+int64_t element_offset_bytes(const sdp_Mem* mem, int64_t index)
+{
+    int64_t offset = 0;
+    for (int32_t i = mem->num_dims - 1; i >= 0; --i)
+    {
+        offset += (index % mem->shape[i]) * mem->stride[i];
+        index /= mem->shape[i];
+    }
+    return offset;
+}
+
+
+// Check that a range of elements is inside an array.
+void check_range(
+        const sdp_Mem* mem,
+        int64_t start_index,
+        int64_t num_elements,
+        sdp_Error* status
+)
+{
+    if (start_index < 0 || num_elements < 0 ||
+            num_elements > mem->num_elements ||
+            start_index > mem->num_elements - num_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Element range is outside the array");
+    }
+}
+
+
+// Check that elements can be copied between arrays.
+void check_copy(
+        const sdp_Mem* dst,
+        const sdp_Mem* src,
+        int64_t offset_dst,
+        int64_t offset_src,
+        int64_t num_elements,
+        sdp_Error* status
+)
+{
+    check_range(dst, offset_dst, num_elements, status);
+    check_range(src, offset_src, num_elements, status);
+    sdp_mem_check_writeable(dst, status);
+    if (dst->type != src->type)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Source and destination data types differ");
+    }
+}
+
+
+// Copy elements one at a time, between CPU arrays of any layout.
+void copy_strided(
+        sdp_Mem* dst,
+        const sdp_Mem* src,
+        int64_t offset_dst,
+        int64_t offset_src,
+        int64_t num_elements
+)
+{
+    const int64_t element_size = sdp_mem_type_size(src->type);
+    for (int64_t i = 0; i < num_elements; ++i)
+    {
+        memcpy(((char*) (dst->data)) +
+                element_offset_bytes(dst, offset_dst + i),
+                ((const char*) (src->data)) +
+                element_offset_bytes(src, offset_src + i), element_size
+        );
+    }
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -327,8 +400,12 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    // Strides of CPU memory may not be those of a block without gaps,
+    // so the copy must have its own.
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
-            src->num_dims, src->shape, src->stride, status
+            src->num_dims, src->shape,
+            src->location == SDP_MEM_CPU && location == SDP_MEM_CPU ?
+            NULL : src->stride, status
     );
     sdp_mem_alloc(mem, status);
     sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
@@ -351,9 +428,21 @@ void sdp_mem_clear_portion(
 )
 {
     if (*status || !mem || num_elements == 0) return;
+    check_range(mem, start_index, num_elements, status);
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     const size_t offset = start_index * sdp_mem_type_size(mem->type);
     const size_t size = num_elements * sdp_mem_type_size(mem->type);
-    if (mem->location == SDP_MEM_CPU)
+    if (mem->location == SDP_MEM_CPU && !mem->is_c_contiguous)
+    {
+        for (int64_t i = start_index; i < start_index + num_elements; ++i)
+        {
+            memset(((char*) (mem->data)) + element_offset_bytes(mem, i), 0,
+                    sdp_mem_type_size(mem->type)
+            );
+        }
+    }
+    else if (mem->location == SDP_MEM_CPU)
     {
         memset(((char*) (mem->data)) + offset, 0, size);
     }
@@ -469,6 +558,8 @@ void sdp_mem_copy_contents(
 #endif
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
+    check_copy(dst, src, offset_dst, offset_src, num_elements, status);
+    if (*status) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
@@ -480,7 +571,14 @@ void sdp_mem_copy_contents(
 
     if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_CPU)
     {
-        memcpy(p_dst, p_src, bytes);
+        if (src->is_c_contiguous && dst->is_c_contiguous)
+        {
+            memcpy(p_dst, p_src, bytes);
+        }
+        else
+        {
+            copy_strided(dst, src, offset_dst, offset_src, num_elements);
+        }
     }
 #ifdef SDP_HAVE_CUDA
     else if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_GPU)
@@ -530,6 +628,8 @@ void sdp_mem_copy_contents_async(
 #endif
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
+    check_copy(dst, src, offset_dst, offset_src, num_elements, status);
+    if (*status) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
@@ -541,7 +641,14 @@ void sdp_mem_copy_contents_async(
 
     if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_CPU)
     {
-        memcpy(p_dst, p_src, bytes);
+        if (src->is_c_contiguous && dst->is_c_contiguous)
+        {
+            memcpy(p_dst, p_src, bytes);
+        }
+        else
+        {
+            copy_strided(dst, src, offset_dst, offset_src, num_elements);
+        }
     }
 #ifdef SDP_HAVE_CUDA
     else if (location_src == SDP_MEM_CPU && location_dst == SDP_MEM_GPU)
-- 
2.43.0


From 325d303973a0462b630a0ab53627bb5b0c079cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 05/66] fix: check arguments of sdp_mem_random_fill and
 sdp_mem_scale_real

Both ignored the read-only flag, and sdp_mem_random_fill() overran strided
blocks and silently ignored unsupported types.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 64ea0fb..e98e560 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -835,6 +835,15 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
         SDP_LOG_ERROR("Unsupported memory location");
         return;
     }
+    if (mem->num_elements == 0) return;
+    if (!sdp_mem_is_c_contiguous(mem))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array must be C contiguous");
+        return;
+    }
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     int64_t num_elements = mem->num_elements;
     const sdp_MemType precision = (sdp_MemType) (mem->type & 0x0F);
     if (sdp_mem_is_complex(mem)) num_elements *= 2;
@@ -856,6 +865,11 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
             data[i] = (double)rand() / (double)RAND_MAX;
         }
     }
+    else
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+    }
 }
 
 
@@ -882,6 +896,8 @@ void sdp_mem_scale_real(sdp_Mem* mem, double value, sdp_Error* status)
         SDP_LOG_ERROR("Array must be C contiguous");
         return;
     }
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(mem);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From d8c746cf0a4ebdbc6c4ac387af4a4dea4680f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 06/66] fix: keep an existing error in
 sdp_mem_check_same_shape, accept NULL in sdp_mem_stride_elements_dim

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index e98e560..026bcf2 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1280,6 +1280,7 @@ int64_t sdp_mem_stride_bytes_dim(const sdp_Mem* mem, int32_t dim)
 
 int64_t sdp_mem_stride_elements_dim(const sdp_Mem* mem, int32_t dim)
 {
+    if (!mem) return 0;
     const int64_t type_size = sdp_mem_type_size(mem->type);
     return type_size > 0 ? sdp_mem_stride_bytes_dim(mem, dim) / type_size : 0;
 }
@@ -1537,6 +1538,8 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
+
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 6d82fd0c22941d39aee082c9a42b6b29bfeeba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 07/66] fix: bounds and argument checks in visibility weighting

Visibilities below the low edge of the grid were given a negative cell
index, and mismatched array sizes and types were not detected.
---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 124 +++++++++++++-----
 1 file changed, 92 insertions(+), 32 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..8de910e 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -15,6 +15,64 @@
     (N1 * (N2 * (N3 * I4 + I3) + I2) + I1)
 
 
+// Return the index of the grid cell containing the given coordinate,
+// or -1 if the coordinate is not on the grid.
+static inline int64_t grid_cell_index(
+        const double grid_uv,
+        const double max_abs_uv,
+        const int64_t grid_size
+)
+{
+    const int64_t half_grid_size = grid_size / 2;
+    const double pos = floor(grid_uv / max_abs_uv * half_grid_size) +
+            half_grid_size;
+    return (pos >= 0.0 && pos < (double) grid_size) ? (int64_t) pos : -1;
+}
+
+
+// Check arguments common to all weighting functions.
+static void check_params(
+        const sdp_Mem* freq_hz,
+        double max_abs_uv,
+        const sdp_Mem* weights_grid_uv,
+        const sdp_Mem* input_weight,
+        const sdp_Mem* output_weight,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (!(max_abs_uv > 0.0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The maximum absolute UV coordinate must be positive");
+        return;
+    }
+    const sdp_MemType weights_type = sdp_mem_type(output_weight);
+    sdp_mem_check_type(input_weight, weights_type, status);
+    sdp_mem_check_type(weights_grid_uv, weights_type, status);
+    sdp_mem_check_location(
+            input_weight, sdp_mem_location(output_weight), status
+    );
+    for (int32_t i = 0; i < 4; ++i)
+    {
+        sdp_mem_check_dim_size(
+                input_weight, i, sdp_mem_shape_dim(output_weight, i), status
+        );
+    }
+    sdp_mem_check_num_dims(freq_hz, 1, status);
+    sdp_mem_check_dim_size(
+            freq_hz, 0, sdp_weights_num_channels(output_weight), status
+    );
+    sdp_mem_check_dim_size(
+            weights_grid_uv, 2, sdp_weights_num_pols(output_weight), status
+    );
+    sdp_mem_check_c_contiguity(freq_hz, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(input_weight, status);
+    sdp_mem_check_c_contiguity(output_weight, status);
+}
+
+
 // Generate grid of weights
 template<typename UVW_TYPE, typename FREQ_TYPE, typename WEIGHT_TYPE>
 static void weights_grid_write(
@@ -30,7 +88,6 @@ static void weights_grid_write(
         const WEIGHT_TYPE* input_weight
 )
 {
-    const int64_t half_grid_size = grid_size / 2;
     for (int64_t i_time = 0; i_time < num_times; ++i_time)
     {
         for (int64_t i_baseline = 0; i_baseline < num_baselines; ++i_baseline)
@@ -44,13 +101,13 @@ static void weights_grid_write(
                 const UVW_TYPE inv_wavelength = freq_hz[i_channel] / C_0;
                 const UVW_TYPE grid_u = uvw[i_uv + 0] * inv_wavelength;
                 const UVW_TYPE grid_v = uvw[i_uv + 1] * inv_wavelength;
-                const int64_t idx_u =
-                        (int64_t) (floor(grid_u / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                const int64_t idx_v =
-                        (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                const int64_t idx_u = grid_cell_index(
+                        grid_u, max_abs_uv, grid_size
+                );
+                const int64_t idx_v = grid_cell_index(
+                        grid_v, max_abs_uv, grid_size
+                );
+                if (idx_u < 0 || idx_v < 0) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -90,7 +147,6 @@ static void sum_weights_calc(
         double* sumweight2
 )
 {
-    const int64_t half_grid_size = grid_size / 2;
     for (int64_t i_time = 0; i_time < num_times; ++i_time)
     {
         for (int64_t i_baseline = 0; i_baseline < num_baselines; ++i_baseline)
@@ -104,13 +160,13 @@ static void sum_weights_calc(
                 const UVW_TYPE inv_wavelength = freq_hz[i_channel] / C_0;
                 const UVW_TYPE grid_u = uvw[i_uv + 0] * inv_wavelength;
                 const UVW_TYPE grid_v = uvw[i_uv + 1] * inv_wavelength;
-                const int64_t idx_u =
-                        (int64_t) (floor(grid_u / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                const int64_t idx_v =
-                        (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                const int64_t idx_u = grid_cell_index(
+                        grid_u, max_abs_uv, grid_size
+                );
+                const int64_t idx_v = grid_cell_index(
+                        grid_v, max_abs_uv, grid_size
+                );
+                if (idx_u < 0 || idx_v < 0) continue;
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -160,7 +216,6 @@ static void uniform_weights_grid_read(
         WEIGHT_TYPE* output_weights
 )
 {
-    const int64_t half_grid_size = grid_size / 2;
     for (int64_t i_time = 0; i_time < num_times; ++i_time)
     {
         for (int64_t i_baseline = 0; i_baseline < num_baselines; ++i_baseline)
@@ -175,13 +230,13 @@ static void uniform_weights_grid_read(
                 const UVW_TYPE inv_wavelength = freq_hz[i_channel] / C_0;
                 const UVW_TYPE grid_u = uvw[i_uv + 0] * inv_wavelength;
                 const UVW_TYPE grid_v = uvw[i_uv + 1] * inv_wavelength;
-                const int64_t idx_u =
-                        (int64_t) (floor(grid_u / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                const int64_t idx_v =
-                        (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                const int64_t idx_u = grid_cell_index(
+                        grid_u, max_abs_uv, grid_size
+                );
+                const int64_t idx_v = grid_cell_index(
+                        grid_v, max_abs_uv, grid_size
+                );
+                if (idx_u >= 0 && idx_v >= 0)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -224,7 +279,6 @@ static void briggs_weights_grid_read(
         double robustness
 )
 {
-    const int64_t half_grid_size = grid_size / 2;
     for (int64_t i_time = 0; i_time < num_times; ++i_time)
     {
         for (int64_t i_baseline = 0; i_baseline < num_baselines; ++i_baseline)
@@ -239,13 +293,13 @@ static void briggs_weights_grid_read(
                 const UVW_TYPE inv_wavelength = freq_hz[i_channel] / C_0;
                 const UVW_TYPE grid_u = uvw[i_uv + 0] * inv_wavelength;
                 const UVW_TYPE grid_v = uvw[i_uv + 1] * inv_wavelength;
-                const int64_t idx_u =
-                        (int64_t) (floor(grid_u / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                const int64_t idx_v =
-                        (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
-                        half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                const int64_t idx_u = grid_cell_index(
+                        grid_u, max_abs_uv, grid_size
+                );
+                const int64_t idx_v = grid_cell_index(
+                        grid_v, max_abs_uv, grid_size
+                );
+                if (idx_u >= 0 && idx_v >= 0)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -333,6 +387,9 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    check_params(freq_hz, max_abs_uv, weights_grid_uv,
+            input_weight, output_weight, status
+    );
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -565,6 +622,9 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    check_params(freq_hz, max_abs_uv, weights_grid_uv,
+            input_weight, output_weight, status
+    );
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From ea6a06ed921c3540ded25f25b91f76ca46937b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 08/66] fix: no infinite or undefined weights where the gridded
 weight is zero

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index 8de910e..cff67bc 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -195,6 +195,7 @@ static double robustness_calc(
         const double robust_param
 )
 {
+    if (sumweight2 == 0.0) return 0.0; // There are no weights on the grid.
     double numerator = pow(5.0 * 1 / (pow(10.0, robust_param)), 2.0);
     double division_param = sumweight2 / sumweight;
     return numerator / division_param;
@@ -252,7 +253,8 @@ static void uniform_weights_grid_read(
                     );
                     for (int64_t i_pol = 0; i_pol < num_pols; ++i_pol)
                     {
-                        weight_val = 1.0 / weights_grid_uv[i_pol_s + i_pol];
+                        const WEIGHT_TYPE sum = weights_grid_uv[i_pol_s + i_pol];
+                        weight_val = sum != 0 ? 1.0 / sum : 0;
                         output_weights[i_pol_start + i_pol] = weight_val;
                     }
                 }
-- 
2.43.0


From 86ea83ba004365f52d7da658869c54d875b37043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 09/66] fix: check number of dimensions of source directions in
 sdp_dft_point_v01

---
 src/ska-sdp-func/visibility/sdp_dft.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/visibility/sdp_dft.cpp b/src/ska-sdp-func/visibility/sdp_dft.cpp
index 4f0876c..f70886c 100644
--- a/src/ska-sdp-func/visibility/sdp_dft.cpp
+++ b/src/ska-sdp-func/visibility/sdp_dft.cpp
@@ -380,6 +380,7 @@ static void check_params_v01(
     sdp_mem_check_location(source_directions, vis_location, status);
     sdp_mem_check_c_contiguity(source_directions, status);
     const int64_t num_components = sdp_mem_shape_dim(source_directions, 0);
+    sdp_mem_check_num_dims(source_directions, 2, status);
     sdp_mem_check_dim_size(source_directions, 1, 3, status);
 
     // Check metadata for source fluxes.
-- 
2.43.0


From 5a2e42fe6b17f8d9db8a2ec787f3c52665953bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 10/66] fix: phase rotation requires contiguous input (u,v,w)
 and output visibilities

---
 src/ska-sdp-func/visibility/sdp_phase_rotate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index 9803612..500017b 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -107,6 +107,7 @@ void sdp_phase_rotate_uvw(
             &num_baselines,
             status
     );
+    sdp_mem_check_c_contiguity(uvw_in, status);
     sdp_data_model_check_uvw(
             uvw_out,
             uvw_type,
@@ -224,6 +225,7 @@ void sdp_phase_rotate_vis(
     int64_t num_pols = 0;
     sdp_mem_check_writeable(vis_out, status);
     sdp_mem_check_location(vis_out, uvw_location, status);
+    sdp_mem_check_c_contiguity(vis_out, status);
     sdp_data_model_get_vis_metadata(
             vis_out,
             &vis_out_type,
-- 
2.43.0


From 39bbe3dbb32dcea75b831e9d082cf45dc10267b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 11/66] fix: check shapes and parameters of the dynamic flagger

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 26 +++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..3b33240 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -46,6 +46,17 @@ static void check_params_dynamic(
         SDP_LOG_ERROR("Flags must be integers.");
         return;
     }
+    for (int i = 0; i < 4; ++i)
+    {
+        if (sdp_mem_shape_dim(vis, i) != sdp_mem_shape_dim(flags, i))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Visibility and flags arrays must have "
+                    "the same shape."
+            );
+            return;
+        }
+    }
 
     if (sdp_mem_location(vis) != sdp_mem_location(flags))
     {
@@ -365,6 +376,21 @@ void sdp_flagger_dynamic_threshold(
 {
     check_params_dynamic(vis, flags, status);
     if (*status) return;
+    if (sdp_mem_num_elements(vis) == 0) return;
+    if (sampling_step < 1 || sampling_step > sdp_mem_shape_dim(vis, 2))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The sampling step must be at least one, and not more "
+                "than the number of channels."
+        );
+        return;
+    }
+    if (window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The median history window must be at least one.");
+        return;
+    }
 
     const int num_timesamples   = (int) sdp_mem_shape_dim(vis, 0);
     const int num_baselines   = (int) sdp_mem_shape_dim(vis, 1);
-- 
2.43.0


From 3de277452e4b0a72fd11289ef0b21e1ff783e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 12/66] fix: median of a single sample in the flagger read
 beyond the array

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 3b33240..4cd8c83 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <algorithm>
 #include <complex>
 #include <math.h>
 #include "src/ska-sdp-func/visibility/sdp_flagger.h"
@@ -93,7 +94,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = int(round(0.5 * n));
+    int mid = std::min(int(round(0.5 * n)), n - 1);
     double median = arr[mid];
     return median;
 }
@@ -101,7 +102,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = int(round(0.5 * n));
+    int mid = std::min(int(round(0.5 * n)), n - 1);
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From 2145c0b0446bc564727c5b5ac1be3353402a0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 13/66] fix: flagging window did not include the first channel

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 4cd8c83..2bde61b 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -241,7 +241,7 @@ static void flagger_dynamic_threshold(
                             {
                                 for (int w = 0; w < window; w++)
                                 {
-                                    if (c - w - 1 > 0)
+                                    if (c - w - 1 >= 0)
                                     {
                                         pos = baseline_pos + (c - w - 1) *
                                                 num_pols + p;
@@ -326,7 +326,7 @@ static void flagger_dynamic_threshold(
                                 {
                                     for (int w = 0; w < window; w++)
                                     {
-                                        if (c - w - 1 > 0)
+                                        if (c - w - 1 >= 0)
                                         {
                                             pos = baseline_pos + (c - w - 1) *
                                                     num_pols + p;
-- 
2.43.0


From 39f1855ab15766b7dd0f2a3708acc258e14dcd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 14/66] fix: flagger used the wrong element as the median of an
 odd number of samples

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 2bde61b..8470ba6 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -94,7 +94,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = std::min(int(round(0.5 * n)), n - 1);
+    int mid = n / 2;
     double median = arr[mid];
     return median;
 }
@@ -102,7 +102,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = std::min(int(round(0.5 * n)), n - 1);
+    int mid = n / 2;
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From 6c2d705ca887df2d81bb27dcdd2507f09f633b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 15/66] fix: tile ranges, bounds and argument checks in tiled
 bucket sort

---
 .../visibility/sdp_tiled_functions.cpp        | 463 +++++++++++++-----
 1 file changed, 333 insertions(+), 130 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..5311c49 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -8,16 +8,6 @@
 #include "ska-sdp-func/utility/sdp_logging.h"
 #include "ska-sdp-func/visibility/sdp_tiled_functions.h"
 
-#define TILE_RANGES(SUPPORT, U_MIN, U_MAX, V_MIN, V_MAX) \
-    const int rel_u = grid_u - top_left_u; \
-    const int rel_v = grid_v - top_left_v; \
-    const float u1 = (float)(rel_u - SUPPORT) * inv_tile_size_u; \
-    const float u2 = (float)(rel_u + SUPPORT + 1) * inv_tile_size_u; \
-    const float v1 = (float)(rel_v - SUPPORT) * inv_tile_size_v; \
-    const float v2 = (float)(rel_v + SUPPORT + 1) * inv_tile_size_v; \
-    U_MIN = (int)(floor(u1)); U_MAX = (int)(ceil(u2)); \
-    V_MIN = (int)(floor(v1)); V_MAX = (int)(ceil(v2)); \
-
 #define C_0 299792458.0
 
 #define INDEX_4D(N4, N3, N2, N1, I4, I3, I2, I1) \
@@ -28,6 +18,83 @@
 #define INDEX_2D(N2, N1, I2, I1)                 (N1 * I2 + I1)
 
 
+// Divide integers, rounding towards negative infinity.
+static inline int64_t floor_div(const int64_t a, const int64_t b)
+{
+    return (a >= 0) ? a / b : -((b - 1 - a) / b);
+}
+
+
+// Get the range of tiles along one dimension that are covered by a visibility,
+// excluding any that would be beyond the edge of the tiled grid.
+// Returns 0 if the support of the visibility does not fit on the grid.
+static inline int tile_range(
+        const double pos,
+        const int64_t support,
+        const int64_t grid_size,
+        const int64_t tile_size,
+        const int64_t top_left,
+        const int64_t num_tiles,
+        int64_t* tile_min,
+        int64_t* tile_max
+)
+{
+    const double grid_pos = round(pos) + (double)(grid_size / 2);
+    if (!(grid_pos + support < grid_size && grid_pos - support >= 0)) return 0;
+    const int64_t rel = (int64_t) grid_pos - top_left;
+    *tile_min = floor_div(rel - support, tile_size);
+    *tile_max = floor_div(rel + support, tile_size) + 1;
+    if (*tile_min < 0) *tile_min = 0;
+    if (*tile_max > num_tiles) *tile_max = num_tiles;
+    return 1;
+}
+
+
+static void check_grid_parameters(
+        const int grid_size,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
+        const int64_t support,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (grid_size <= 0 || tile_size_u <= 0 || tile_size_v <= 0 || support < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Grid and tile sizes must be greater than zero, "
+                "and the support must not be negative"
+        );
+    }
+}
+
+
+static void check_array_1d(
+        const sdp_Mem* array,
+        const char* name,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        int64_t size,
+        int is_output,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (is_output) sdp_mem_check_writeable(array, status);
+    sdp_mem_check_c_contiguity(array, status);
+    sdp_mem_check_num_dims(array, 1, status);
+    sdp_mem_check_location(array, location, status);
+    if (type != SDP_MEM_VOID) sdp_mem_check_type(array, type, status);
+    if (*status) return;
+    const int64_t actual_size = sdp_mem_shape_dim(array, 0);
+    if (is_output ? actual_size < size : actual_size != size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent size of array '%s'", name);
+    }
+}
+
+
 template<typename UVW_TYPE, typename FREQ_TYPE>
 static void sdp_tile_count_simple(
         const int64_t support,
@@ -35,11 +102,12 @@ static void sdp_tile_count_simple(
         const int64_t num_baselines,
         const int64_t num_channels,
         const int grid_size,
-        const float inv_tile_size_u,
-        const float inv_tile_size_v,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
         const UVW_TYPE* uvw,
         const FREQ_TYPE* freqs,
         const int64_t num_tiles_u,
+        const int64_t num_tiles_v,
         const int64_t top_left_u,
         const int64_t top_left_v,
         const double cell_size_rad,
@@ -47,7 +115,6 @@ static void sdp_tile_count_simple(
         int* num_skipped
 )
 {
-    const int64_t grid_centre = grid_size / 2;
     const double grid_scale =  grid_size * cell_size_rad;
 
     for (int i_time = 0; i_time < num_times; i_time++)
@@ -67,30 +134,16 @@ static void sdp_tile_count_simple(
                 const UVW_TYPE pos_v = uvw[i_uv + 1] * inv_wavelength *
                         grid_scale;
 
-                const int64_t grid_u =
-                        (int64_t)(round(pos_u) + grid_centre);
-                const int64_t grid_v =
-                        (int64_t)(round(pos_v) + grid_centre);
-
-                if ((grid_u + support < grid_size) && (grid_u - support >= 0) &&
-                        (grid_v + support < grid_size) &&
-                        (grid_v - support) >= 0)
+                int64_t tile_u_min = 0, tile_u_max = 0;
+                int64_t tile_v_min = 0, tile_v_max = 0;
+                if (tile_range(pos_u, support, grid_size, tile_size_u,
+                        top_left_u, num_tiles_u, &tile_u_min, &tile_u_max) &&
+                        tile_range(pos_v, support, grid_size, tile_size_v,
+                        top_left_v, num_tiles_v, &tile_v_min, &tile_v_max))
                 {
-                    int tile_u_min = 0;
-                    int tile_u_max = 0;
-                    int tile_v_min = 0;
-                    int tile_v_max = 0;
-
-                    TILE_RANGES(support,
-                            tile_v_min,
-                            tile_u_max,
-                            tile_v_min,
-                            tile_v_max
-                    );
-
-                    for (int pv = tile_v_min; pv < tile_v_max; pv++)
+                    for (int64_t pv = tile_v_min; pv < tile_v_max; pv++)
                     {
-                        for (int pu = tile_u_min; pu < tile_u_max; pu++)
+                        for (int64_t pu = tile_u_min; pu < tile_u_max; pu++)
                         {
                             num_points_in_tiles[pu + pv * num_tiles_u] += 1;
                         }
@@ -130,13 +183,14 @@ static void sdp_bucket_sort_simple(
         const int64_t num_baselines,
         const int64_t num_channels,
         const int grid_size,
-        const float inv_tile_size_u,
-        const float inv_tile_size_v,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
         const UVW_TYPE* uvw,
         const FREQ_TYPE* freqs,
         const VIS_TYPE* vis,
         const WEIGHT_TYPE* weight,
         const int64_t num_tiles_u,
+        const int64_t num_tiles_v,
         const int64_t top_left_u,
         const int64_t top_left_v,
         int* tile_offsets,
@@ -145,11 +199,12 @@ static void sdp_bucket_sort_simple(
         VIS_TYPE* sorted_vis,
         WEIGHT_TYPE* sorted_weight,
         int* sorted_tile,
-        const double cell_size_rad
+        const double cell_size_rad,
+        const int64_t num_sorted,
+        sdp_Error* status
 )
 {
     int num_pol = 1;
-    const int64_t grid_centre = grid_size / 2;
     const double grid_scale =  grid_size * cell_size_rad;
     for (int i_time = 0; i_time < num_times; i_time++)
     {
@@ -173,30 +228,26 @@ static void sdp_bucket_sort_simple(
                 const UVW_TYPE pos_v = uvw[i_uv + 1] * inv_wavelength *
                         grid_scale;
 
-                const int grid_u =
-                        (int)round(pos_u) + grid_centre;
-                const int grid_v =
-                        (int)round(pos_v) + grid_centre;
-
-                if ((grid_u + support < grid_size) && (grid_u - support >= 0) &&
-                        (grid_v + support < grid_size) &&
-                        (grid_v - support) >= 0)
+                int64_t tile_u_min = 0, tile_u_max = 0;
+                int64_t tile_v_min = 0, tile_v_max = 0;
+                if (tile_range(pos_u, support, grid_size, tile_size_u,
+                        top_left_u, num_tiles_u, &tile_u_min, &tile_u_max) &&
+                        tile_range(pos_v, support, grid_size, tile_size_v,
+                        top_left_v, num_tiles_v, &tile_v_min, &tile_v_max))
                 {
-                    int tile_u_min = 0;
-                    int tile_u_max = 0;
-                    int tile_v_min = 0;
-                    int tile_v_max = 0;
-                    TILE_RANGES(support,
-                            tile_v_min,
-                            tile_u_max,
-                            tile_v_min,
-                            tile_v_max
-                    );
-                    for (int pv = tile_v_min; pv < tile_v_max; pv++)
+                    for (int64_t pv = tile_v_min; pv < tile_v_max; pv++)
                     {
-                        for (int pu = tile_u_min; pu < tile_u_max; pu++)
+                        for (int64_t pu = tile_u_min; pu < tile_u_max; pu++)
                         {
                             int off = tile_offsets[pu + pv * num_tiles_u];
+                            if (off < 0 || off >= num_sorted)
+                            {
+                                *status = SDP_ERR_INVALID_ARGUMENT;
+                                SDP_LOG_ERROR("Tile offsets are inconsistent "
+                                        "with the size of the sorted arrays"
+                                );
+                                return;
+                            }
                             tile_offsets[pu + pv * num_tiles_u] += 1;
                             sorted_uu[off] = pos_u;
                             sorted_vv[off] = pos_v;
@@ -205,7 +256,7 @@ static void sdp_bucket_sort_simple(
                                 sorted_vis[off] = vis[i_vis + i];
                                 sorted_weight[off] = weight[i_vis + i];
                             }
-                            sorted_tile[off] = pv * 32768 + pu;
+                            sorted_tile[off] = (int)(pv * 32768 + pu);
                         }
                     }
                 }
@@ -215,28 +266,32 @@ static void sdp_bucket_sort_simple(
 }
 
 
-template<typename UVW_TYPE, typename FREQ_TYPE, typename VIS_TYPE>
+template<typename UVW_TYPE, typename FREQ_TYPE>
 static void tiled_indexing(
         const int64_t support,
         const int64_t num_times,
         const int64_t num_baselines,
         const int64_t num_channels,
         const int grid_size,
-        const float inv_tile_size_u,
-        const float inv_tile_size_v,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
         const UVW_TYPE* uvw,
         const FREQ_TYPE* freqs,
         const int64_t num_tiles_u,
+        const int64_t num_tiles_v,
         const int64_t top_left_u,
         const int64_t top_left_v,
         int* tile_offsets,
+        UVW_TYPE* sorted_uu,
+        UVW_TYPE* sorted_vv,
         int* sorted_vis_index,
         int* sorted_tile,
-        const double cell_size_rad
+        const double cell_size_rad,
+        const int64_t num_sorted,
+        sdp_Error* status
 )
 {
     int num_pol = 1;
-    const int64_t grid_centre = grid_size / 2;
     const double grid_scale =  grid_size * cell_size_rad;
     for (int i_time = 0; i_time < num_times; i_time++)
     {
@@ -260,36 +315,34 @@ static void tiled_indexing(
                 const UVW_TYPE pos_v = uvw[i_uv + 1] * inv_wavelength *
                         grid_scale;
 
-                const int grid_u =
-                        (int)round(pos_u) + grid_centre;
-                const int grid_v =
-                        (int)round(pos_v) + grid_centre;
-
-                if ((grid_u + support < grid_size) && (grid_u - support >= 0) &&
-                        (grid_v + support < grid_size) &&
-                        (grid_v - support) >= 0)
+                int64_t tile_u_min = 0, tile_u_max = 0;
+                int64_t tile_v_min = 0, tile_v_max = 0;
+                if (tile_range(pos_u, support, grid_size, tile_size_u,
+                        top_left_u, num_tiles_u, &tile_u_min, &tile_u_max) &&
+                        tile_range(pos_v, support, grid_size, tile_size_v,
+                        top_left_v, num_tiles_v, &tile_v_min, &tile_v_max))
                 {
-                    int tile_u_min = 0;
-                    int tile_u_max = 0;
-                    int tile_v_min = 0;
-                    int tile_v_max = 0;
-                    TILE_RANGES(support,
-                            tile_v_min,
-                            tile_u_max,
-                            tile_v_min,
-                            tile_v_max
-                    );
-                    for (int pv = tile_v_min; pv < tile_v_max; pv++)
+                    for (int64_t pv = tile_v_min; pv < tile_v_max; pv++)
                     {
-                        for (int pu = tile_u_min; pu < tile_u_max; pu++)
+                        for (int64_t pu = tile_u_min; pu < tile_u_max; pu++)
                         {
                             int off = tile_offsets[pu + pv * num_tiles_u];
+                            if (off < 0 || off >= num_sorted)
+                            {
+                                *status = SDP_ERR_INVALID_ARGUMENT;
+                                SDP_LOG_ERROR("Tile offsets are inconsistent "
+                                        "with the size of the sorted arrays"
+                                );
+                                return;
+                            }
                             tile_offsets[pu + pv * num_tiles_u] += 1;
+                            sorted_uu[off] = pos_u;
+                            sorted_vv[off] = pos_v;
                             for (int i = 0; i < num_pol; i++)
                             {
                                 sorted_vis_index[off] = i_vis + i;
                             }
-                            sorted_tile[off] = pv * 32768 + pu;
+                            sorted_tile[off] = (int)(pv * 32768 + pu);
                         }
                     }
                 }
@@ -315,10 +368,9 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(tile_offsets, status);
-    sdp_mem_clear_contents(num_points_in_tiles, status);
-    sdp_mem_clear_contents(num_skipped, status);
+    if (*status) return;
+    check_grid_parameters(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -361,6 +413,33 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
+    sdp_mem_check_c_contiguity(uvw, status);
+    check_array_1d(freqs, "freqs",
+            SDP_MEM_VOID, vis_location, num_channels, 0, status
+    );
+    check_array_1d(tile_offsets, "tile_offsets",
+            SDP_MEM_INT, vis_location, num_tiles + 1, 1, status
+    );
+    check_array_1d(num_points_in_tiles, "num_points_in_tiles",
+            SDP_MEM_INT, vis_location, num_tiles, 1, status
+    );
+    check_array_1d(num_skipped, "num_skipped",
+            SDP_MEM_INT, vis_location, 1, 1, status
+    );
+    if (*status) return;
+    if (!(uvw_type == SDP_MEM_DOUBLE && freq_type == SDP_MEM_DOUBLE) &&
+            !(uvw_type == SDP_MEM_FLOAT && freq_type == SDP_MEM_FLOAT))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(tile_offsets, status);
+    sdp_mem_clear_contents(num_points_in_tiles, status);
+    sdp_mem_clear_contents(num_skipped, status);
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -373,26 +452,47 @@ void sdp_count_and_prefix_sum(
                     num_baselines,
                     num_channels,
                     grid_size,
-                    inv_tile_size_u,
-                    inv_tile_size_v,
+                    tile_size_u,
+                    tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
                     num_tiles_u,
+                    num_tiles_v,
                     top_left_u,
                     top_left_v,
                     cell_size_rad,
                     (int*)sdp_mem_data(num_points_in_tiles),
                     (int*)sdp_mem_data(num_skipped)
             );
-
-            sdp_prefix_sum(
-                    num_tiles,
-                    (const int*)sdp_mem_data_const(num_points_in_tiles),
-                    (int*)sdp_mem_data(tile_offsets)
+        }
+        else
+        {
+            sdp_tile_count_simple(
+                    support,
+                    num_times,
+                    num_baselines,
+                    num_channels,
+                    grid_size,
+                    tile_size_u,
+                    tile_size_v,
+                    (const float*) sdp_mem_data_const(uvw),
+                    (const float*)sdp_mem_data_const(freqs),
+                    num_tiles_u,
+                    num_tiles_v,
+                    top_left_u,
+                    top_left_v,
+                    cell_size_rad,
+                    (int*)sdp_mem_data(num_points_in_tiles),
+                    (int*)sdp_mem_data(num_skipped)
             );
-
-            *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
         }
+        sdp_prefix_sum(
+                num_tiles,
+                (const int*)sdp_mem_data_const(num_points_in_tiles),
+                (int*)sdp_mem_data(tile_offsets)
+        );
+
+        *num_visibilites = *((int*)sdp_mem_data(tile_offsets) + num_tiles);
     }
     else if (vis_location == SDP_MEM_GPU)
     {
@@ -510,12 +610,8 @@ void sdp_bucket_sort(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_uu, status);
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_weight, status);
-    sdp_mem_clear_contents(sorted_vis, status);
+    check_grid_parameters(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -570,6 +666,63 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
+    sdp_mem_check_c_contiguity(vis, status);
+    sdp_mem_check_c_contiguity(weights, status);
+    sdp_mem_check_c_contiguity(uvw, status);
+    check_array_1d(freqs, "freqs",
+            SDP_MEM_VOID, vis_location, num_channels, 0, status
+    );
+    check_array_1d(tile_offsets, "tile_offsets",
+            SDP_MEM_INT, vis_location, num_tiles + 1, 1, status
+    );
+    if (*status) return;
+    if (num_pols != 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Only one polarisation is supported");
+        return;
+    }
+    if (!(uvw_type == SDP_MEM_DOUBLE && weight_type == SDP_MEM_DOUBLE &&
+            freq_type == SDP_MEM_DOUBLE) &&
+            !(uvw_type == SDP_MEM_FLOAT && weight_type == SDP_MEM_FLOAT &&
+            freq_type == SDP_MEM_FLOAT))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+    if (vis_location == SDP_MEM_CPU)
+    {
+        sdp_mem_check_type(vis, uvw_type == SDP_MEM_DOUBLE ?
+                SDP_MEM_COMPLEX_DOUBLE : SDP_MEM_COMPLEX_FLOAT, status
+        );
+        sdp_mem_check_type(sorted_vis, vis_type, status);
+    }
+    const int64_t num_sorted = sdp_mem_shape_dim(sorted_tile, 0);
+    check_array_1d(sorted_uu, "sorted_uu",
+            uvw_type, vis_location, num_sorted, 1, status
+    );
+    check_array_1d(sorted_vv, "sorted_vv",
+            uvw_type, vis_location, num_sorted, 1, status
+    );
+    check_array_1d(sorted_weight, "sorted_weight",
+            weight_type, vis_location, num_sorted, 1, status
+    );
+    check_array_1d(sorted_tile, "sorted_tile",
+            SDP_MEM_INT, vis_location, num_sorted, 1, status
+    );
+    check_array_1d(sorted_vis, "sorted_vis",
+            SDP_MEM_VOID, vis_location, num_sorted, 1, status
+    );
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_uu, status);
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_weight, status);
+    sdp_mem_clear_contents(sorted_vis, status);
+    if (*status) return;
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -577,56 +730,62 @@ void sdp_bucket_sort(
                 weight_type == SDP_MEM_DOUBLE &&
                 freq_type == SDP_MEM_DOUBLE)
         {
-            sdp_bucket_sort_simple<double, double, double, double>(
+            sdp_bucket_sort_simple<double, double, std::complex<double>, double>(
                     support,
                     num_times,
                     num_baselines,
                     num_channels,
                     grid_size,
-                    inv_tile_size_u,
-                    inv_tile_size_v,
+                    tile_size_u,
+                    tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
-                    (const double*)sdp_mem_data_const(vis),
+                    (const std::complex<double>*)sdp_mem_data_const(vis),
                     (const double*)sdp_mem_data_const(weights),
                     num_tiles_u,
+                    num_tiles_v,
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
                     (double*)sdp_mem_data(sorted_uu),
                     (double*)sdp_mem_data(sorted_vv),
-                    (double*)sdp_mem_data(sorted_vis),
+                    (std::complex<double>*)sdp_mem_data(sorted_vis),
                     (double*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
-                    cell_size_rad
+                    cell_size_rad,
+                    num_sorted,
+                    status
             );
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 weight_type == SDP_MEM_FLOAT &&
                 freq_type == SDP_MEM_FLOAT)
         {
-            sdp_bucket_sort_simple<float, float, float, float>(
+            sdp_bucket_sort_simple<float, float, std::complex<float>, float>(
                     support,
                     num_times,
                     num_baselines,
                     num_channels,
                     grid_size,
-                    inv_tile_size_u,
-                    inv_tile_size_v,
+                    tile_size_u,
+                    tile_size_v,
                     (const float*) sdp_mem_data_const(uvw),
                     (const float*)sdp_mem_data_const(freqs),
-                    (const float*)sdp_mem_data_const(vis),
+                    (const std::complex<float>*)sdp_mem_data_const(vis),
                     (const float*)sdp_mem_data_const(weights),
                     num_tiles_u,
+                    num_tiles_v,
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
                     (float*)sdp_mem_data(sorted_uu),
                     (float*)sdp_mem_data(sorted_vv),
-                    (float*)sdp_mem_data(sorted_vis),
+                    (std::complex<float>*)sdp_mem_data(sorted_vis),
                     (float*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
-                    cell_size_rad
+                    cell_size_rad,
+                    num_sorted,
+                    status
             );
         }
         else
@@ -729,11 +888,8 @@ void sdp_tiled_indexing(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vis_index, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_uu, status);
+    check_grid_parameters(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation uvw_loc = sdp_mem_location(uvw);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
@@ -746,6 +902,7 @@ void sdp_tiled_indexing(
     const float inv_tile_size_u = 1.0 / tile_size_u;
     const float inv_tile_size_v = 1.0 / tile_size_v;
     int64_t num_tiles_u = (grid_size + tile_size_u - 1) / tile_size_u;
+    int64_t num_tiles_v = (grid_size + tile_size_v - 1) / tile_size_v;
     int64_t top_left_u = grid_centre - ctile_u * tile_size_u - tile_size_u / 2;
     int64_t top_left_v = grid_centre - ctile_v * tile_size_v - tile_size_v / 2;
 
@@ -758,51 +915,97 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
+    sdp_mem_check_c_contiguity(uvw, status);
+    check_array_1d(freqs, "freqs",
+            SDP_MEM_VOID, uvw_loc, num_channels, 0, status
+    );
+    check_array_1d(tile_offsets, "tile_offsets",
+            SDP_MEM_INT, uvw_loc, num_tiles_u * num_tiles_v + 1, 1, status
+    );
+    if (*status) return;
+    if (!(uvw_type == SDP_MEM_DOUBLE && freq_type == SDP_MEM_DOUBLE) &&
+            !(uvw_type == SDP_MEM_FLOAT && freq_type == SDP_MEM_FLOAT))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+    const int64_t num_sorted = sdp_mem_shape_dim(sorted_tile, 0);
+    check_array_1d(sorted_uu, "sorted_uu",
+            uvw_type, uvw_loc, num_sorted, 1, status
+    );
+    check_array_1d(sorted_vv, "sorted_vv",
+            uvw_type, uvw_loc, num_sorted, 1, status
+    );
+    check_array_1d(sorted_tile, "sorted_tile",
+            SDP_MEM_INT, uvw_loc, num_sorted, 1, status
+    );
+    check_array_1d(sorted_vis_index, "sorted_vis_index",
+            SDP_MEM_INT, uvw_loc, num_sorted, 1, status
+    );
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vis_index, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_uu, status);
+    if (*status) return;
 
     if (uvw_loc == SDP_MEM_CPU)
     {
         if (uvw_type == SDP_MEM_DOUBLE &&
                 freq_type == SDP_MEM_DOUBLE)
         {
-            tiled_indexing<double, double, double>(
+            tiled_indexing<double, double>(
                     support,
                     num_times,
                     num_baselines,
                     num_channels,
                     grid_size,
-                    inv_tile_size_u,
-                    inv_tile_size_v,
+                    tile_size_u,
+                    tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
                     num_tiles_u,
+                    num_tiles_v,
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (double*)sdp_mem_data(sorted_uu),
+                    (double*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
-                    cell_size_rad
+                    cell_size_rad,
+                    num_sorted,
+                    status
             );
         }
         else if (uvw_type == SDP_MEM_FLOAT &&
                 freq_type == SDP_MEM_FLOAT)
         {
-            tiled_indexing<float, float, float>(
+            tiled_indexing<float, float>(
                     support,
                     num_times,
                     num_baselines,
                     num_channels,
                     grid_size,
-                    inv_tile_size_u,
-                    inv_tile_size_v,
+                    tile_size_u,
+                    tile_size_v,
                     (const float*) sdp_mem_data_const(uvw),
                     (const float*)sdp_mem_data_const(freqs),
                     num_tiles_u,
+                    num_tiles_v,
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (float*)sdp_mem_data(sorted_uu),
+                    (float*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
-                    cell_size_rad
+                    cell_size_rad,
+                    num_sorted,
+                    status
             );
         }
         else
-- 
2.43.0


From c594a6846028a52f5834f3c2598021964e192991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 16/66] fix: odd-sized and unpadded input, and argument checks,
 in FFT convolution

---
 .../numeric_functions/sdp_fft_convolution.cpp | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..3b1ad54 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -87,21 +87,21 @@ inline void sdp_remove_padding_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t original_rows,
+        int64_t original_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
         for (j = 0; j < original_cols; j++)
         {
-            data[i * original_cols +
-                    j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+            // The convolution is circular, so wrap around if there is no padding.
+            const int64_t row = (i + pad_rows - 1 + rows) % rows;
+            const int64_t col = (j + pad_cols - 1 + cols) % cols;
+            data[i * original_cols + j] = padded_data[row * cols + col];
         }
     }
 }
@@ -235,7 +235,9 @@ static void sdp_fft_convolution_cpu(
             pad_dim,
             pad_dim,
             extra_in1,
-            extra_in1
+            extra_in1,
+            in1_dim,
+            in1_dim
     );
 
     sdp_mem_ref_dec(in1_pad_mem);
@@ -594,6 +596,24 @@ void sdp_fft_convolution(
         return;
     }
 
+    sdp_mem_check_num_dims(in1, 2, status);
+    sdp_mem_check_num_dims(in2, 2, status);
+    const int64_t in1_shape[] = {in1_dim_0, in1_dim_1};
+    sdp_mem_check_shape(out, 2, in1_shape, status);
+    sdp_mem_check_type(in2, data_type, status);
+    sdp_mem_check_location(in2, location, status);
+    sdp_mem_check_c_contiguity(in1, status);
+    sdp_mem_check_c_contiguity(in2, status);
+    sdp_mem_check_c_contiguity(out, status);
+    if (*status) return;
+
+    if (in1_dim_0 < 1 || in2_dim_0 < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Input arrays must not be empty");
+        return;
+    }
+
     if (location == SDP_MEM_CPU)
     {
         if (data_type == SDP_MEM_COMPLEX_DOUBLE)
-- 
2.43.0


From f158beb3c8866f9ae2f32f59d355da329ae119eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 17/66] fix: check data types, shapes, layouts and locations in
 CLEAN functions

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp   | 47 +++++++++++++++
 .../clean/sdp_ms_clean_cornwell.cpp           | 57 +++++++++++++++++++
 2 files changed, 104 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..2de1d82 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -857,6 +857,53 @@ void sdp_hogbom_clean(
         return;
     }
 
+    // Check data types, shapes, locations and layouts of all arrays.
+    const int64_t img_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {psf_dim, psf_dim};
+    if (data_type != SDP_MEM_DOUBLE && data_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+    sdp_mem_check_shape(dirty_img, 2, img_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_shape(clean_model, 2, img_shape, status);
+    sdp_mem_check_shape(residual, 2, img_shape, status);
+    sdp_mem_check_shape(skymodel, 2, img_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_type(clean_model, data_type, status);
+    sdp_mem_check_type(residual, data_type, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_location(psf, location, status);
+    sdp_mem_check_location(clean_model, location, status);
+    sdp_mem_check_location(residual, location, status);
+    sdp_mem_check_location(cbeam_details, SDP_MEM_CPU, status);
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_c_contiguity(clean_model, status);
+    sdp_mem_check_c_contiguity(residual, status);
+    sdp_mem_check_c_contiguity(skymodel, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_writeable(clean_model, status);
+    sdp_mem_check_writeable(residual, status);
+    if (*status) return;
+    if (dirty_img_dim < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The dirty image must not be empty");
+        return;
+    }
+    const double cbeam_dim = (data_type == SDP_MEM_DOUBLE) ?
+                ((const double*)sdp_mem_data_const(cbeam_details))[3] :
+                ((const float*)sdp_mem_data_const(cbeam_details))[3];
+    if (!(cbeam_dim >= 1 && cbeam_dim <= INT16_MAX))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The size of the CLEAN beam is out of range");
+        return;
+    }
+
     if (location == SDP_MEM_CPU)
     {
         // copy dirty image to starting residual
diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..b1dc50b 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -870,6 +870,63 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    // Check data types, shapes, locations and layouts of all arrays.
+    const int64_t img_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {psf_dim, psf_dim};
+    if (data_type != SDP_MEM_DOUBLE && data_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+    sdp_mem_check_shape(dirty_img, 2, img_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_shape(clean_model, 2, img_shape, status);
+    sdp_mem_check_shape(residual, 2, img_shape, status);
+    sdp_mem_check_shape(skymodel, 2, img_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_type(clean_model, data_type, status);
+    sdp_mem_check_type(residual, data_type, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_location(psf, location, status);
+    sdp_mem_check_location(clean_model, location, status);
+    sdp_mem_check_location(residual, location, status);
+    sdp_mem_check_location(cbeam_details, SDP_MEM_CPU, status);
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_c_contiguity(clean_model, status);
+    sdp_mem_check_c_contiguity(residual, status);
+    sdp_mem_check_c_contiguity(skymodel, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_mem_check_writeable(clean_model, status);
+    sdp_mem_check_writeable(residual, status);
+    if (*status) return;
+    if (dirty_img_dim < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The dirty image must not be empty");
+        return;
+    }
+    sdp_mem_check_location(dirty_img, SDP_MEM_CPU, status);
+    sdp_mem_check_location(scale_list, SDP_MEM_CPU, status);
+    sdp_mem_check_num_dims(scale_list, 1, status);
+    sdp_mem_check_c_contiguity(scale_list, status);
+    if (*status) return;
+    if (psf_dim != (dirty_img_dim * 2))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR(
+                "PSF array dimensions must be double the Dirty image array dimensions"
+        );
+        return;
+    }
+    if (scale_dim < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("At least one scale is required");
+        return;
+    }
+
     // copy dirty image to starting residual
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
-- 
2.43.0


From 41e9c577907e56fa26cbbf42ce6af2e748026043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 18/66] fix: padding of odd-sized input in FFT convolution

---
 .../numeric_functions/sdp_fft_convolution.cpp       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 3b1ad54..36fc59f 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -162,7 +161,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim,
+            extra_in1, extra_in1, pad_dim
+    );
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +179,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim,
+            extra_in2, extra_in2, pad_dim
+    );
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
-- 
2.43.0


From 55b54daef6360416fcad40abd72f2a9a38e20f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 19/66] fix: check array types, sizes, layouts and offsets in
 station and element beam functions

---
 .../station_beam/sdp_element_dipole.cpp       |  21 +++
 src/ska-sdp-func/station_beam/sdp_station.cpp | 150 ++++++++++++++++--
 2 files changed, 159 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..44d571a 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -131,6 +131,27 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType real_type = (sdp_MemType) (type & ~SDP_MEM_COMPLEX);
+    const int64_t num_values = element_beam_is_complex4 ? 2 : 1;
+    sdp_mem_check_type(theta_rad, real_type, status);
+    sdp_mem_check_type(phi_rad, real_type, status);
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_rad, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
+    sdp_mem_check_writeable(element_beam, status);
+    if (*status) return;
+    if (num_points < 0 || stride_element_beam < 0 ||
+            index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(theta_rad) < num_points ||
+            sdp_mem_num_elements(phi_rad) < num_points ||
+            (num_points > 0 && sdp_mem_num_elements(element_beam) <
+            ((int64_t) num_points - 1) * stride_element_beam +
+            index_offset_element_beam + num_values))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent array sizes");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..86f7aad 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -165,6 +165,54 @@ void sdp_station_beam_dft(
 }
 
 
+// Return pointer to the data in an optional array, or NULL if it is empty.
+static const void* data_or_null(const sdp_Mem* array)
+{
+    return sdp_mem_num_elements(array) > 0 ? sdp_mem_data_const(array) : 0;
+}
+
+
+// Check an input array, returning (a pointer to) its data, if it is not empty.
+static const void* check_input(
+        const sdp_Mem* array,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        int64_t min_elements,
+        const char* name,
+        sdp_Error* status
+)
+{
+    if (*status || sdp_mem_num_elements(array) == 0) return 0;
+    sdp_mem_check_type(array, type, status);
+    sdp_mem_check_location(array, location, status);
+    sdp_mem_check_c_contiguity(array, status);
+    if (!*status && sdp_mem_num_elements(array) < min_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array '%s' is too small", name);
+    }
+    return *status ? 0 : sdp_mem_data_const(array);
+}
+
+
+static const void* check_required_input(
+        const sdp_Mem* array,
+        sdp_MemType type,
+        sdp_MemLocation location,
+        int64_t min_elements,
+        const char* name,
+        sdp_Error* status
+)
+{
+    if (!*status && min_elements > 0 && sdp_mem_num_elements(array) == 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array '%s' is empty", name);
+    }
+    return check_input(array, type, location, min_elements, name, status);
+}
+
+
 void sdp_station_beam_aperture_array(
         const double wavenumber,
         const sdp_Mem* element_weights,
@@ -220,6 +268,84 @@ void sdp_station_beam_aperture_array(
         return;
     }
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
+    const int64_t num_pol = is_complex4 ? 4 : 1;
+    if (precision != SDP_MEM_FLOAT && precision != SDP_MEM_DOUBLE)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+        return;
+    }
+    if (num_points < 0 || index_offset_points < 0 ||
+            index_offset_station_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The number of points and offsets must not be negative");
+        return;
+    }
+    const sdp_MemType complex_type =
+            (sdp_MemType) (precision | SDP_MEM_COMPLEX);
+    const int64_t end_point = (int64_t) index_offset_points + num_points;
+    sdp_mem_check_type(station_beam, complex_type, status);
+    sdp_mem_check_c_contiguity(station_beam, status);
+    sdp_mem_check_writeable(station_beam, status);
+    if (!*status && sdp_mem_num_elements(station_beam) <
+            num_pol * ((int64_t) index_offset_station_beam + num_points))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array 'station_beam' is too small");
+    }
+    if (!*status && (sdp_mem_num_elements(element_weights) != num_elements ||
+            sdp_mem_num_elements(element_y) != num_elements ||
+            sdp_mem_num_elements(element_z) != num_elements))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent number of elements");
+    }
+    check_required_input(element_weights, complex_type, location,
+            num_elements, "element_weights", status
+    );
+    check_required_input(element_x, precision, location,
+            num_elements, "element_x", status
+    );
+    check_required_input(element_y, precision, location,
+            num_elements, "element_y", status
+    );
+    check_required_input(element_z, precision, location,
+            num_elements, "element_z", status
+    );
+    check_required_input(point_x, precision, location,
+            end_point, "point_x", status
+    );
+    check_required_input(point_y, precision, location,
+            end_point, "point_y", status
+    );
+    check_input(point_z, precision, location, end_point, "point_z", status);
+    const int have_beam = sdp_mem_num_elements(element_beam) > 0;
+    const int* beam_index = (const int*) check_input(
+            element_beam_index, SDP_MEM_INT, location,
+            have_beam ? num_elements : 0, "element_beam_index", status
+    );
+    check_input(element_beam, complex_type, location,
+            num_pol * num_points * (beam_index ? 1 : num_elements),
+            "element_beam", status
+    );
+    if (*status) return;
+    if (have_beam && beam_index && location == SDP_MEM_CPU)
+    {
+        const int64_t beam_size = num_pol * num_points;
+        for (int i = 0; i < num_elements; ++i)
+        {
+            if (beam_index[i] < 0 || (beam_index[i] + (int64_t) 1) *
+                    beam_size > sdp_mem_num_elements(element_beam))
+            {
+                *status = SDP_ERR_INVALID_ARGUMENT;
+                SDP_LOG_ERROR("Element beam index %d is out of range",
+                        beam_index[i]
+                );
+                return;
+            }
+        }
+    }
     if (location == SDP_MEM_CPU)
     {
         if (precision == SDP_MEM_FLOAT && !is_complex4)
@@ -235,9 +361,9 @@ void sdp_station_beam_aperture_array(
                     num_points,
                     (const float*)sdp_mem_data_const(point_x),
                     (const float*)sdp_mem_data_const(point_y),
-                    (const float*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<float>*)sdp_mem_data_const(element_beam),
+                    (const float*)data_or_null(point_z),
+                    (const int*)data_or_null(element_beam_index),
+                    (const complex<float>*)data_or_null(element_beam),
                     index_offset_station_beam,
                     (complex<float>*)sdp_mem_data(station_beam),
                     norm_factor_f,
@@ -258,9 +384,9 @@ void sdp_station_beam_aperture_array(
                     num_points,
                     (const double*)sdp_mem_data_const(point_x),
                     (const double*)sdp_mem_data_const(point_y),
-                    (const double*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<double>*)sdp_mem_data_const(element_beam),
+                    (const double*)data_or_null(point_z),
+                    (const int*)data_or_null(element_beam_index),
+                    (const complex<double>*)data_or_null(element_beam),
                     index_offset_station_beam,
                     (complex<double>*)sdp_mem_data(station_beam),
                     norm_factor,
@@ -281,9 +407,9 @@ void sdp_station_beam_aperture_array(
                     num_points,
                     (const float*)sdp_mem_data_const(point_x),
                     (const float*)sdp_mem_data_const(point_y),
-                    (const float*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<float>*)sdp_mem_data_const(element_beam),
+                    (const float*)data_or_null(point_z),
+                    (const int*)data_or_null(element_beam_index),
+                    (const complex<float>*)data_or_null(element_beam),
                     index_offset_station_beam,
                     (complex<float>*)sdp_mem_data(station_beam),
                     norm_factor_f,
@@ -304,9 +430,9 @@ void sdp_station_beam_aperture_array(
                     num_points,
                     (const double*)sdp_mem_data_const(point_x),
                     (const double*)sdp_mem_data_const(point_y),
-                    (const double*)sdp_mem_data_const(point_z),
-                    (const int*)sdp_mem_data_const(element_beam_index),
-                    (const complex<double>*)sdp_mem_data_const(element_beam),
+                    (const double*)data_or_null(point_z),
+                    (const int*)data_or_null(element_beam_index),
+                    (const complex<double>*)data_or_null(element_beam),
                     index_offset_station_beam,
                     (complex<double>*)sdp_mem_data(station_beam),
                     norm_factor,
-- 
2.43.0


From 5d6bc535e92ae9ee9cbfdf3fcf6a9a31ec4a0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 20/66] fix: factorials overflow in single precision in
 spherical wave patterns

---
 .../sdp_element_spherical_wave_harp.cpp       | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..00134e6 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -77,7 +77,8 @@ void sdp_spherical_wave_pattern_harp (
                     }
                     else
                     {
-                        FP d_fact = (FP)1, s_fact = (FP)1;
+                        // (Factorials would overflow in single precision.)
+                        double d_fact = 1.0, s_fact = 1.0;
                         const int d_ = l - abs_m, s_ = l + abs_m;
                         for (int i_ = 2; i_ <= d_; ++i_)
                         {
@@ -87,8 +88,7 @@ void sdp_spherical_wave_pattern_harp (
                         {
                             s_fact *= i_;
                         }
-                        const FP ff = f_ * d_fact / s_fact;
-                        const FP nf = sqrt(ff);
+                        const FP nf = (FP) sqrt(f_ * d_fact / s_fact);
                         const int ind_m = 4 * (ind0 - abs_m);
                         const int ind_p = 4 * (ind0 + abs_m);
                         const complex<FP> te_x_m = alpha[ind_m + 0];
@@ -156,6 +156,31 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType real_type = (sdp_MemType) (type & ~SDP_MEM_COMPLEX);
+    sdp_mem_check_type(theta_rad, real_type, status);
+    sdp_mem_check_type(phi_x_rad, real_type, status);
+    sdp_mem_check_type(phi_y_rad, real_type, status);
+    sdp_mem_check_type(coeffs, type, status);
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_x_rad, status);
+    sdp_mem_check_c_contiguity(phi_y_rad, status);
+    sdp_mem_check_c_contiguity(coeffs, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
+    sdp_mem_check_writeable(element_beam, status);
+    if (*status) return;
+    const int64_t num_coeffs = ((int64_t) l_max + 1) * (l_max + 1) - 1;
+    if (num_points < 0 || l_max < 0 || index_offset_element_beam < 0 ||
+            sdp_mem_num_elements(theta_rad) < num_points ||
+            sdp_mem_num_elements(phi_x_rad) < num_points ||
+            sdp_mem_num_elements(phi_y_rad) < num_points ||
+            sdp_mem_num_elements(coeffs) < 4 * num_coeffs ||
+            sdp_mem_num_elements(element_beam) <
+            4 * ((int64_t) num_points + index_offset_element_beam))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Inconsistent array sizes");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From b9de7f65d729dcf5d3fb49ffadb3f7eecb7d4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 21/66] fix: values of PSWFs of odd size, and range of PSWF
 parameters

---
 .../fourier_transforms/sdp_pswf.cpp             | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..1128238 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -582,11 +582,12 @@ static inline void generate_pswf(
 
     // Get value at 0
     const int size = (int) pswf_.shape[0];
+    if (size < 1) return;
     pswf_(0) = 0.0;
     pswf_(size / 2) = sdp_pswf_aswfa(m, m, c, ck, 0);
 
     // Get remaining values
-    for (int i = 1; i < size / 2; i++)
+    for (int i = 1; i <= (size - 1) / 2; i++)
     {
         // Get value (plus derivative)
         const double x = 2 * ((double)i) / size;
@@ -615,6 +616,14 @@ struct sdp_Pswf
 
 sdp_Pswf* sdp_pswf_create(int m, double c)
 {
+    // The number of expansion coefficients needed (and so the size of all work
+    // arrays) increases with c.
+    const double max_c = 170.0;
+    if (m < 0 || !(c >= 0.0 && c <= max_c))
+    {
+        SDP_LOG_ERROR("PSWF parameters out of range: m=%d, c=%g", m, c);
+        return 0;
+    }
     sdp_Error status = SDP_SUCCESS;
     sdp_Pswf* plan = (sdp_Pswf*) calloc(1, sizeof(sdp_Pswf));
     const int64_t coeff_shape[] = {200};
@@ -699,6 +708,7 @@ double sdp_pswf_par_m(const sdp_Pswf* plan)
 
 void sdp_pswf_free(sdp_Pswf* plan)
 {
+    if (!plan) return;
     sdp_mem_free(plan->pswf);
     sdp_mem_free(plan->pswf_gpu);
     sdp_mem_free(plan->coeff);
@@ -716,6 +726,11 @@ void sdp_pswf_generate(
 )
 {
     if (*status) return;
+    if (!plan)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     sdp_Mem* out_ptr = out;
     if (out && size == 0)
     {
-- 
2.43.0


From 2944e7d049a0debe7c5e4451beb3bf39804c89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 22/66] fix: taper of odd-sized sub-grids, and facets that
 extend beyond the image

---
 .../grid_data/sdp_gridder_direct.cpp            |  5 ++++-
 .../grid_data/sdp_gridder_grid_correct.cpp      | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..12d90a1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -52,7 +52,10 @@ sdp_GridderDirect* sdp_gridder_direct_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, pswf_sg_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), plan->pswf_sg, status);
-    ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    if (!*status && subgrid_size > 0 && subgrid_size % 2 == 0)
+    {
+        ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
+    }
     return plan;
 }
 
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 9d72536..562c764 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -42,6 +42,16 @@ void grid_corr_pswf(
     if (*status) return;
     const int num_l = (int) sdp_mem_shape_dim(facet, 0);
     const int num_m = (int) sdp_mem_shape_dim(facet, 1);
+    const int64_t half_size = image_size / 2;
+    const int64_t start_l = half_size - num_l / 2 + facet_offset_l;
+    const int64_t start_m = half_size - num_m / 2 + facet_offset_m;
+    if (start_l < 0 || start_l + num_l > image_size ||
+            start_m < 0 || start_m + num_m > image_size)
+    {
+        SDP_LOG_ERROR("The facet must be within the image");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     const double* pswf_n_coe = (const double*) sdp_mem_data_const(
             sdp_pswf_coeff(pswf_n, SDP_MEM_CPU, status)
     );
@@ -134,6 +144,13 @@ void sdp_gridder_grid_correct_pswf(
     sdp_Pswf* pswf_n = sdp_pswf_create(0, w_support * (M_PI / 2));
     sdp_Pswf* pswf_lm = sdp_pswf_create(0, support * (M_PI / 2));
     sdp_pswf_generate(pswf_lm, 0, image_size, 1, status);
+    if (!*status && !pswf_n) *status = SDP_ERR_INVALID_ARGUMENT;
+    if (*status)
+    {
+        sdp_pswf_free(pswf_n);
+        sdp_pswf_free(pswf_lm);
+        return;
+    }
 
     // Apply grid correction for the appropriate data type.
     const sdp_MemLocation loc = sdp_mem_location(facet);
-- 
2.43.0


From 4af1e8c5d310060cd78583c21a773c0cc28305aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 23/66] fix: channel ranges, bounds, shapes and types in
 gridder utility functions

---
 .../grid_data/sdp_gridder_utils.cpp           | 159 ++++++++++++++----
 1 file changed, 130 insertions(+), 29 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..6fe65be 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstdlib>
@@ -15,6 +16,50 @@ using std::complex;
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Check that two arrays are 2D, and have the same shape.
+void check_same_shape_2d(
+        const sdp_Mem* a,
+        const sdp_Mem* b,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_num_dims(a, 2, status);
+    sdp_mem_check_num_dims(b, 2, status);
+    if (*status) return;
+    sdp_mem_check_dim_size(a, 0, sdp_mem_shape_dim(b, 0), status);
+    sdp_mem_check_dim_size(a, 1, sdp_mem_shape_dim(b, 1), status);
+}
+
+
+// Check the sizes of the (u,v,w), visibility and direction arrays.
+void check_dft_shapes(
+        const sdp_Mem* uvw,
+        const sdp_Mem* vis,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        const sdp_Mem* lmn,
+        int64_t num_dirs,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_num_dims(uvw, 2, status);
+    sdp_mem_check_num_dims(vis, 2, status);
+    sdp_mem_check_num_dims(lmn, 2, status);
+    if (*status) return;
+    const int64_t num_uvw = sdp_mem_shape_dim(uvw, 0);
+    if (sdp_mem_shape_dim(uvw, 1) != 3 || sdp_mem_shape_dim(lmn, 1) != 3 ||
+            sdp_mem_shape_dim(vis, 0) < num_uvw ||
+            sdp_mem_shape_dim(lmn, 0) < num_dirs ||
+            (start_chs && end_chs && (
+                sdp_mem_shape_dim(start_chs, 0) < num_uvw ||
+                sdp_mem_shape_dim(end_chs, 0) < num_uvw)))
+    {
+        SDP_LOG_ERROR("Inconsistent array dimensions");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+    }
+}
+
+
 // Local function to multiply every element in an array by those in another
 // array raised to the given exponent, accumulating the results in the output:
 // out += in1 * in2 ** exponent
@@ -107,13 +152,14 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    const int size_l = (int) image_.shape[0];
+    const int size_m = (int) image_.shape[1];
+    for (int il = 0; il < size_l; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int im = 0; im < size_m; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
@@ -157,7 +203,8 @@ void dft(
     sdp_MemViewCpu<const FLUX_TYPE, 1> flux_;
     sdp_MemViewCpu<const DIR_TYPE, 2> lmn_;
     sdp_MemViewCpu<complex<VIS_TYPE>, 2> vis_;
-    if (start_chs && end_chs)
+    const bool use_range = start_chs && end_chs;
+    if (use_range)
     {
         sdp_mem_check_and_view(start_chs, &start_chs_, status);
         sdp_mem_check_and_view(end_chs, &end_chs_, status);
@@ -166,6 +213,7 @@ void dft(
     sdp_mem_check_and_view(flux, &flux_, status);
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(vis, &vis_, status);
+    check_dft_shapes(uvw, vis, start_chs, end_chs, lmn, num_sources, status);
     if (*status) return;
 
     // Scale subgrid offset values.
@@ -181,11 +229,13 @@ void dft(
     #pragma omp parallel for
     for (int64_t i = 0; i < num_uvw; ++i)
     {
-        // Skip if there's no visibility to degrid.
-        if (start_chs && end_chs && start_chs_(i) >= end_chs_(i)) continue;
+        // Get the range of channels to degrid.
+        const int start_ch = use_range ? std::max(start_chs_(i), 0) : 0;
+        const int end_ch =
+                use_range ? std::min(end_chs_(i), num_chan) : num_chan;
 
         // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
@@ -248,7 +298,8 @@ void idft(
     sdp_MemViewCpu<const DIR_TYPE, 2> lmn_;
     sdp_MemViewCpu<FLUX_TYPE, 2> image_;
     sdp_MemViewCpu<const double, 1> taper_;
-    if (start_chs && end_chs)
+    const bool use_range = start_chs && end_chs;
+    if (use_range)
     {
         sdp_mem_check_and_view(start_chs, &start_chs_, status);
         sdp_mem_check_and_view(end_chs, &end_chs_, status);
@@ -258,7 +309,17 @@ void idft(
     sdp_mem_check_and_view(lmn, &lmn_, status);
     sdp_mem_check_and_view(image, &image_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
+    check_dft_shapes(uvw, vis, start_chs, end_chs, lmn,
+            image_size * image_size, status
+    );
     if (*status) return;
+    if (sdp_mem_shape_dim(image, 1) != image_size ||
+            (image_taper_1d && taper_.shape[0] < image_size))
+    {
+        SDP_LOG_ERROR("Inconsistent array dimensions");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
 
     // Scale subgrid offset values.
     double du = 0, dv = 0, dw = 0;
@@ -281,14 +342,13 @@ void idft(
             // Loop over uvw values.
             for (int64_t i = 0; i < num_uvw; ++i)
             {
-                // Skip if there's no visibility to grid.
-                if (start_chs && end_chs && start_chs_(i) >= end_chs_(i))
-                {
-                    continue;
-                }
+                // Get the range of channels to grid.
+                const int start_ch = use_range ? std::max(start_chs_(i), 0) : 0;
+                const int end_ch =
+                        use_range ? std::min(end_chs_(i), num_chan) : num_chan;
 
                 // Loop over channels.
-                for (int c = 0; c < num_chan; ++c)
+                for (int c = start_ch; c < end_ch; ++c)
                 {
                     const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
@@ -332,17 +392,33 @@ void image_to_flmn(
     sdp_mem_check_and_view(lmn, &lmn_, status);
     if (image_taper_1d) sdp_mem_check_and_view(image_taper_1d, &taper_, status);
 
-    // Store pixel data.
+    sdp_mem_check_num_dims(image, 2, status);
     if (*status) return;
     int64_t k = 0;
     const int size_l = (int) sdp_mem_shape_dim(image, 0);
     const int size_m = (int) sdp_mem_shape_dim(image, 1);
+    const int64_t num_out = flux ?
+                sdp_gridder_count_nonzero_pixels(image, status) :
+                (int64_t) size_l * size_m;
+    if (*status) return;
+    if (lmn_.shape[1] != 3 || lmn_.shape[0] < num_out ||
+            (flux && sdp_mem_shape_dim(flux, 0) < num_out) ||
+            (flux && image_taper_1d &&
+            taper_.shape[0] < std::max(size_l, size_m)))
+    {
+        SDP_LOG_ERROR("Inconsistent array dimensions");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
+
+    // Store pixel data.
     if (flux)
     {
         sdp_MemViewCpu<const IMAGE_TYPE, 2> image_;
         sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
         sdp_mem_check_and_view(image, &image_, status);
         sdp_mem_check_and_view(flux, &flux_, status);
+        if (*status) return;
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
@@ -393,7 +469,7 @@ void make_kernel(const sdp_Mem* window, sdp_Mem* kernel, sdp_Error* status)
     if (*status) return;
     const int support = (int) sdp_mem_shape_dim(window, 0);
     const int oversampling = (int) sdp_mem_shape_dim(kernel, 0) - 1;
-    if (support != (int) sdp_mem_shape_dim(kernel, 1))
+    if (support != (int) sdp_mem_shape_dim(kernel, 1) || oversampling < 1)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         return;
@@ -663,7 +739,7 @@ void sum_diff(
     sdp_mem_check_and_view(a, &a_, status);
     sdp_mem_check_and_view(b, &b_, status);
     if (*status) return;
-    if (a_.shape[0] != b_.shape[0])
+    if (a_.shape[0] != b_.shape[0] || end_row > a_.shape[0])
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         return;
@@ -702,16 +778,10 @@ void uvw_bounds_all(
         {
             const double u0 = freq0_hz * uvw[j] / C_0;
             const double du = dfreq_hz * uvw[j] / C_0;
-            if (uvw[j] >= 0)
-            {
-                uvw_min[j] = std::min(u0 + start_ch * du, uvw_min[j]);
-                uvw_max[j] = std::max(u0 + (end_ch - 1) * du, uvw_max[j]);
-            }
-            else
-            {
-                uvw_max[j] = std::max(u0 + start_ch * du, uvw_max[j]);
-                uvw_min[j] = std::min(u0 + (end_ch - 1) * du, uvw_min[j]);
-            }
+            const double u_start = u0 + start_ch * du;
+            const double u_end = u0 + (end_ch - 1) * du;
+            uvw_min[j] = std::min(std::min(u_start, u_end), uvw_min[j]);
+            uvw_max[j] = std::max(std::max(u_start, u_end), uvw_max[j]);
         }
     }
 }
@@ -739,6 +809,10 @@ void sdp_gridder_accumulate_scaled_arrays(
     sdp_MemType type1 = sdp_mem_type(in1);
     sdp_MemType type2 = in2 ? sdp_mem_type(in2) : SDP_MEM_COMPLEX_DOUBLE;
     if (!in2) exponent = 0;
+    check_same_shape_2d(out, in1, status);
+    if (exponent != 0) check_same_shape_2d(out, in2, status);
+    sdp_mem_check_writeable(out, status);
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         if (type_out == SDP_MEM_COMPLEX_DOUBLE &&
@@ -1058,7 +1132,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
@@ -1344,7 +1418,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (!*status && vr_size > 0 && vr_size % 2 == 0)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_DOUBLE)
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+        else
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
@@ -1365,6 +1449,13 @@ void sdp_gridder_make_w_pattern(
     sdp_mem_check_and_view(w_pattern, &w_pattern_, status);
     const int half_size = subgrid_size / 2;
     if (*status) return;
+    if (w_pattern_.shape[0] < subgrid_size ||
+            w_pattern_.shape[1] < subgrid_size)
+    {
+        SDP_LOG_ERROR("The w-pattern array is too small");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
     #pragma omp parallel for
     for (int il = 0; il < subgrid_size; ++il)
     {
@@ -1554,6 +1645,10 @@ void sdp_gridder_scale_inv_array(
         *status = SDP_ERR_MEM_LOCATION;
         return;
     }
+    check_same_shape_2d(out, in1, status);
+    check_same_shape_2d(out, in2, status);
+    sdp_mem_check_writeable(out, status);
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         if (sdp_mem_type(out) == SDP_MEM_COMPLEX_DOUBLE &&
@@ -2008,6 +2103,12 @@ void sdp_gridder_uvw_bounds_all(
 
     // Check memory location.
     const sdp_MemLocation loc = sdp_mem_location(uvws);
+    const int64_t num_rows = sdp_mem_shape_dim(uvws, 0);
+    sdp_mem_check_num_dims(uvws, 2, status);
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_dim_size(start_chs, 0, num_rows, status);
+    sdp_mem_check_dim_size(end_chs, 0, num_rows, status);
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         sdp_MemViewCpu<const int, 1> start_chs_, end_chs_;
-- 
2.43.0


From b8568bfc5f783fb13e0e0bc0772e6369d620442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 24/66] fix: direct degridding of an image without sources

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 12d90a1..198d406 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -79,6 +79,7 @@ void sdp_gridder_direct_degrid(
 
     // Count nonzero pixels in image.
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
+    if (*status || num_src == 0) return;
     const sdp_MemType dir_type = sdp_mem_type(uvws);
     const sdp_MemLocation loc = sdp_mem_location(vis);
     const int64_t lmn_shape[] = {num_src, 3};
-- 
2.43.0


From fb5cf7599d720e036874d7accd9954785bb5c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 25/66] fix: accumulation of scaled complex values into real
 arrays

---
 .../grid_data/sdp_gridder_utils.cpp           | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 6fe65be..9fc8657 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -121,19 +121,26 @@ void accum_scale_array(
 }
 
 
-// Local function to accumulate the real part of a complex array in the output:
-// out += real(in)
+// Local function to accumulate the real part of a complex array, scaled by
+// those in another array raised to the given exponent, in the output:
+// out += real(in1 * in2 ** exponent)
 template<typename OUT_TYPE, typename IN_TYPE>
 void accum_complex_real_array(
         sdp_Mem* out,
-        const sdp_Mem* in,
+        const sdp_Mem* in1,
+        const sdp_Mem* in2,
+        int exponent,
         sdp_Error* status
 )
 {
     sdp_MemViewCpu<OUT_TYPE, 2> out_;
     sdp_MemViewCpu<const IN_TYPE, 2> in_;
+    sdp_MemViewCpu<const complex<double>, 2> in2_;
+    const bool scale = in2 && exponent != 0;
     sdp_mem_check_and_view(out, &out_, status);
-    sdp_mem_check_and_view(in, &in_, status);
+    sdp_mem_check_and_view(in1, &in_, status);
+    if (scale) sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     #pragma omp parallel for
@@ -141,7 +148,16 @@ void accum_complex_real_array(
     {
         for (int j = 0; j < shape1; ++j)
         {
-            out_(i, j) += in_(i, j).real();
+            if (!scale)
+            {
+                out_(i, j) += in_(i, j).real();
+            }
+            else
+            {
+                const complex<double> factor = (exponent == 1) ?
+                            in2_(i, j) : pow(in2_(i, j), exponent);
+                out_(i, j) += ((complex<double>) in_(i, j) * factor).real();
+            }
         }
     }
 }
@@ -882,20 +898,26 @@ void sdp_gridder_accumulate_scaled_arrays(
         else if (type_out == SDP_MEM_DOUBLE && type1 == SDP_MEM_COMPLEX_DOUBLE)
         {
             accum_complex_real_array<double, complex<double> >(
-                    out, in1, status
+                    out, in1, in2, exponent, status
             );
         }
         else if (type_out == SDP_MEM_FLOAT && type1 == SDP_MEM_COMPLEX_FLOAT)
         {
-            accum_complex_real_array<float, complex<float> >(out, in1, status);
+            accum_complex_real_array<float, complex<float> >(
+                    out, in1, in2, exponent, status
+            );
         }
         else if (type_out == SDP_MEM_DOUBLE && type1 == SDP_MEM_COMPLEX_FLOAT)
         {
-            accum_complex_real_array<double, complex<float> >(out, in1, status);
+            accum_complex_real_array<double, complex<float> >(
+                    out, in1, in2, exponent, status
+            );
         }
         else if (type_out == SDP_MEM_FLOAT && type1 == SDP_MEM_COMPLEX_DOUBLE)
         {
-            accum_complex_real_array<float, complex<double> >(out, in1, status);
+            accum_complex_real_array<float, complex<double> >(
+                    out, in1, in2, exponent, status
+            );
         }
         else
         {
-- 
2.43.0


From 4dd72c07d7edc12032de9352d9e8b5b9c6650c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 26/66] fix: footprint of kernels, empty selections and shapes
 in w-tower gridding

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 91 ++++++++++++++++---
 1 file changed, 77 insertions(+), 14 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..d58e35a 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -40,6 +40,58 @@ struct sdp_GridderWtowerUVW
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Check that the kernels of all the selected channels are within the sub-grid,
+// for one dimension.
+inline bool kernel_fits(
+        const sdp_GridderWtowerUVW* plan,
+        double u0,
+        double du,
+        int64_t start_ch,
+        int64_t end_ch
+)
+{
+    const int half_subgrid = plan->subgrid_size / 2;
+    const double theta_ov = plan->theta * plan->oversampling;
+    const double iu_a = round((u0 + start_ch * du) * theta_ov);
+    const double iu_b = round((u0 + (end_ch - 1) * du) * theta_ov);
+    const double first = floor(MIN(iu_a, iu_b) / plan->oversampling) -
+            plan->support / 2 + 1;
+    const double last = floor(MAX(iu_a, iu_b) / plan->oversampling) -
+            plan->support / 2 + plan->support;
+    return first >= -half_subgrid && last < half_subgrid;
+}
+
+
+// Check the shapes of the visibility data, and the range of rows.
+void check_params(
+        const sdp_Mem* uvws,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        const sdp_Mem* vis,
+        int64_t start_row,
+        int64_t end_row,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    const int64_t num_rows = sdp_mem_shape_dim(uvws, 0);
+    sdp_mem_check_num_dims(uvws, 2, status);
+    sdp_mem_check_dim_size(uvws, 1, 3, status);
+    sdp_mem_check_num_dims(start_chs, 1, status);
+    sdp_mem_check_num_dims(end_chs, 1, status);
+    sdp_mem_check_dim_size(start_chs, 0, num_rows, status);
+    sdp_mem_check_dim_size(end_chs, 0, num_rows, status);
+    sdp_mem_check_num_dims(vis, 2, status);
+    sdp_mem_check_dim_size(vis, 0, num_rows, status);
+    if (*status) return;
+    if (start_row > num_rows || end_row > num_rows)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The range of rows must be within the data");
+    }
+}
+
+
 // Local function to do the degridding.
 template<typename SUBGRID_TYPE, typename UVW_TYPE, typename VIS_TYPE>
 void degrid(
@@ -87,7 +139,8 @@ void degrid(
     for (int64_t i_row = start_row; i_row < end_row; ++i_row)
     {
         // Skip if there's no visibility to degrid.
-        int64_t start_ch = start_chs(i_row), end_ch = end_chs(i_row);
+        int64_t start_ch = MAX(start_chs(i_row), 0);
+        int64_t end_ch = MIN(end_chs(i_row), vis_.shape[1]);
         if (start_ch >= end_ch) continue;
 
         // Select only visibilities on this w-plane.
@@ -110,12 +163,8 @@ void degrid(
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
         // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        if (!kernel_fits(plan, uvw0[0], duvw[0], start_ch, end_ch) ||
+                !kernel_fits(plan, uvw0[1], duvw[1], start_ch, end_ch))
         {
             continue;
         }
@@ -393,7 +442,8 @@ void grid(
     for (int64_t i_row = start_row; i_row < end_row; ++i_row)
     {
         // Skip if there's no visibility to grid.
-        int64_t start_ch = start_chs(i_row), end_ch = end_chs(i_row);
+        int64_t start_ch = MAX(start_chs(i_row), 0);
+        int64_t end_ch = MIN(end_chs(i_row), vis_.shape[1]);
         if (start_ch >= end_ch) continue;
 
         // Select only visibilities on this w-plane.
@@ -416,12 +466,8 @@ void grid(
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
         // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
+        if (!kernel_fits(plan, uvw0[0], duvw[0], start_ch, end_ch) ||
+                !kernel_fits(plan, uvw0[1], duvw[1], start_ch, end_ch))
         {
             continue;
         }
@@ -671,6 +717,7 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
     if (subgrid_size % 2 != 0)
     {
         // If subgrid_size isn't even, the current FFT shift won't be correct.
@@ -758,6 +805,11 @@ void sdp_gridder_wtower_uvw_degrid(
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
 
+    check_params(
+            uvws, start_chs, end_chs, vis, start_row, end_row, status
+    );
+    if (*status) return;
+
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
     if (loc == SDP_MEM_GPU)
@@ -783,6 +835,9 @@ void sdp_gridder_wtower_uvw_degrid(
             uvws, freq0_hz, dfreq_hz, start_chs, end_chs, c_min, c_max, status
     );
 
+    // Return if there is nothing to do.
+    if (*status || !(c_min[2] <= c_max[2])) return;
+
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
     const int first_w_plane = (int) floor(c_min[2] / plan->w_step - eta) -
@@ -967,6 +1022,11 @@ void sdp_gridder_wtower_uvw_grid(
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
 
+    check_params(
+            uvws, start_chs, end_chs, vis, start_row, end_row, status
+    );
+    if (*status) return;
+
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
     if (loc == SDP_MEM_GPU)
@@ -992,6 +1052,9 @@ void sdp_gridder_wtower_uvw_grid(
             uvws, freq0_hz, dfreq_hz, start_chs, end_chs, c_min, c_max, status
     );
 
+    // Return if there is nothing to do.
+    if (*status || !(c_min[2] <= c_max[2])) return;
+
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
     const int first_w_plane = (int) floor(c_min[2] / plan->w_step - eta) -
-- 
2.43.0


From 4df8b5d24202a01aabfd07db4c96f262892c041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 27/66] fix: usable area of sub-grids, range and type checks,
 no exit in w-stacking

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 120 +++++++++++++++++-
 1 file changed, 114 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..4cd0ed2 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -4,6 +4,7 @@
 #include <omp.h>
 #endif
 
+#include <cmath>
 #include <inttypes.h>
 #include <vector>
 
@@ -62,6 +63,16 @@ struct sdp_SubgridTask
 };
 
 
+// Return the size of the part of a sub-grid to use for visibilities, leaving
+// enough space for the kernels around it.
+int effective_size(int subgrid_size, int support, double subgrid_frac)
+{
+    const int max_size = subgrid_size - support - 2;
+    const int eff_size = int(floor(subgrid_size * subgrid_frac));
+    return eff_size < max_size ? eff_size : max_size;
+}
+
+
 // Count visibilities in each sub-grid, create and return a list of tasks.
 vector<sdp_SubgridTask> count_visibilities(
         const sdp_Mem* uvw,
@@ -165,6 +176,91 @@ sdp_SubgridTask pick_task(vector<sdp_SubgridTask>& subgrids, sdp_Mutex* mutex)
 }
 
 
+// Check shapes and parameters before starting.
+void check_params(
+        const sdp_Mem* uvw,
+        const sdp_Mem* vis,
+        const sdp_Mem* image,
+        int subgrid_size,
+        double theta,
+        double w_step,
+        int support,
+        double subgrid_frac,
+        double w_tower_height,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    sdp_mem_check_dim_size(uvw, 0, sdp_mem_shape_dim(vis, 0), status);
+    sdp_mem_check_dim_size(uvw, 1, 3, status);
+    sdp_mem_check_num_dims(image, 2, status);
+    sdp_mem_check_dim_size(image, 1, sdp_mem_shape_dim(image, 0), status);
+    if (*status) return;
+    const sdp_MemType type_vis = sdp_mem_type(vis);
+    const sdp_MemType type_uvw = sdp_mem_type(uvw);
+    const sdp_MemType type_real = (sdp_MemType) (
+        sdp_mem_type(image) & ~SDP_MEM_COMPLEX
+    );
+    if ((type_real != SDP_MEM_FLOAT && type_real != SDP_MEM_DOUBLE) ||
+            !((type_vis == SDP_MEM_COMPLEX_DOUBLE &&
+            type_uvw == SDP_MEM_DOUBLE) ||
+            (type_vis == SDP_MEM_COMPLEX_FLOAT &&
+            (type_uvw == SDP_MEM_FLOAT || type_uvw == SDP_MEM_DOUBLE))))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data types: "
+                "image has type %s; uvw has type %s; vis has type %s",
+                sdp_mem_type_name(sdp_mem_type(image)),
+                sdp_mem_type_name(sdp_mem_type(uvw)),
+                sdp_mem_type_name(sdp_mem_type(vis))
+        );
+        return;
+    }
+    if (!(theta > 0.0) || !(w_step > 0.0) || !(w_tower_height > 0.0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Field of view, w-step and w-tower height must be > 0");
+        return;
+    }
+    if (!(subgrid_frac > 0.0) || subgrid_frac > 1.0 ||
+            effective_size(subgrid_size, support, subgrid_frac) < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("No usable area in sub-grids of size %d (fraction %.3f)",
+                subgrid_size, subgrid_frac
+        );
+    }
+}
+
+
+// Check that the range of coordinates can be covered by sub-grids.
+void check_bounds(
+        double uvw_min[3],
+        double uvw_max[3],
+        const double dist[3],
+        int64_t num_vis,
+        sdp_Error* status
+)
+{
+    for (int i = 0; i < 3; ++i)
+    {
+        // Written so that the check fails if any value is undefined.
+        if (!*status && num_vis > 0 && (
+                    !(fabs(uvw_min[i] / dist[i]) < 1e8) ||
+                    !(fabs(uvw_max[i] / dist[i]) < 1e8)))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Coordinates are not finite, or are too large");
+        }
+    }
+    if (*status || num_vis == 0)
+    {
+        // The bounds are undefined.
+        for (int i = 0; i < 3; ++i) uvw_min[i] = uvw_max[i] = 0.0;
+    }
+}
+
+
 // Report run parameters and timing data.
 void report_timing(
         const vector<sdp_GridderWtowerUVW*> kernel,
@@ -258,6 +354,10 @@ void sdp_grid_wstack_wtower_degrid_all(
         return;
     }
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
+    check_params(uvw, vis, image, subgrid_size, theta, w_step,
+            support, subgrid_frac, w_tower_height, status
+    );
+    if (*status) return;
     int max_threads = 1;
 #ifdef _OPENMP
     omp_set_max_active_levels(1);
@@ -309,7 +409,7 @@ void sdp_grid_wstack_wtower_degrid_all(
 
     // Determine effective size of sub-grids and w-tower height
     // (both depend critically on how much we want to "use" of the sub-grid).
-    const int eff_sg_size = int(floor(subgrid_size * subgrid_frac));
+    const int eff_sg_size = effective_size(subgrid_size, support, subgrid_frac);
     const double eff_sg_dist = eff_sg_size / theta;
     const double w_stack_dist = w_tower_height * w_step;
 
@@ -319,6 +419,8 @@ void sdp_grid_wstack_wtower_degrid_all(
     sdp_gridder_uvw_bounds_all(
             uvw, freq0_hz, dfreq_hz, start_ch, end_ch, uvw_min, uvw_max, status
     );
+    const double dist[] = {eff_sg_dist, eff_sg_dist, w_stack_dist};
+    check_bounds(uvw_min, uvw_max, dist, num_rows * num_chan, status);
     int64_t min_iu = int64_t(floor(uvw_min[0] / eff_sg_dist + 0.5 - eta));
     int64_t max_iu = int64_t(floor(uvw_max[0] / eff_sg_dist + 0.5 + eta));
     int64_t min_iv = int64_t(floor(uvw_min[1] / eff_sg_dist + 0.5 - eta));
@@ -439,12 +541,12 @@ void sdp_grid_wstack_wtower_degrid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            *status = SDP_ERR_RUNTIME;
         }
     }
 
@@ -515,6 +617,10 @@ void sdp_grid_wstack_wtower_grid_all(
         return;
     }
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
+    check_params(uvw, vis, image, subgrid_size, theta, w_step,
+            support, subgrid_frac, w_tower_height, status
+    );
+    if (*status) return;
     int max_threads = 1;
 #ifdef _OPENMP
     omp_set_max_active_levels(1);
@@ -566,7 +672,7 @@ void sdp_grid_wstack_wtower_grid_all(
 
     // Determine effective size of sub-grids and w-tower height
     // (both depend critically on how much we want to "use" of the sub-grid).
-    const int eff_sg_size = int(floor(subgrid_size * subgrid_frac));
+    const int eff_sg_size = effective_size(subgrid_size, support, subgrid_frac);
     const double eff_sg_dist = eff_sg_size / theta;
     const double w_stack_dist = w_tower_height * w_step;
     const double sg_factor = pow(image_size / (double)subgrid_size, 2);
@@ -577,6 +683,8 @@ void sdp_grid_wstack_wtower_grid_all(
     sdp_gridder_uvw_bounds_all(
             uvw, freq0_hz, dfreq_hz, start_ch, end_ch, uvw_min, uvw_max, status
     );
+    const double dist[] = {eff_sg_dist, eff_sg_dist, w_stack_dist};
+    check_bounds(uvw_min, uvw_max, dist, num_rows * num_chan, status);
     int64_t min_iu = int64_t(floor(uvw_min[0] / eff_sg_dist + 0.5 - eta));
     int64_t max_iu = int64_t(floor(uvw_max[0] / eff_sg_dist + 0.5 + eta));
     int64_t min_iv = int64_t(floor(uvw_min[1] / eff_sg_dist + 0.5 - eta));
@@ -691,12 +799,12 @@ void sdp_grid_wstack_wtower_grid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            *status = SDP_ERR_RUNTIME;
         }
 
         // Do image correction / w-stacking.
-- 
2.43.0


From 08ee727d74a99fc7e43986570c356dc9c737ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 28/66] fix: channels exactly on interval bounds, distant
 bounds, undefined coordinates and shapes in channel selection

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 124 +++++++++---------
 .../grid_data/sdp_gridder_clamp_channels.h    | 100 ++++++++------
 2 files changed, 123 insertions(+), 101 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..0219b34 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -6,6 +6,39 @@
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Check the shapes of the arrays, and the range of rows to process.
+void check_params(
+        const sdp_Mem* uvws,
+        const int dim,
+        const sdp_Mem* start_ch_in,
+        const sdp_Mem* end_ch_in,
+        const sdp_Mem* start_ch_out,
+        const sdp_Mem* end_ch_out,
+        const int64_t start_row,
+        const int64_t end_row,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_num_dims(uvws, 2, status);
+    sdp_mem_check_num_dims(start_ch_in, 1, status);
+    sdp_mem_check_num_dims(end_ch_in, 1, status);
+    sdp_mem_check_num_dims(start_ch_out, 1, status);
+    sdp_mem_check_num_dims(end_ch_out, 1, status);
+    if (*status) return;
+    const int64_t num_uvw = sdp_mem_shape_dim(uvws, 0);
+    if (dim < 0 || dim > 2 || sdp_mem_shape_dim(uvws, 1) != 3 ||
+            end_row > num_uvw ||
+            sdp_mem_shape_dim(start_ch_in, 0) < num_uvw ||
+            sdp_mem_shape_dim(end_ch_in, 0) < num_uvw ||
+            sdp_mem_shape_dim(start_ch_out, 0) < num_uvw ||
+            sdp_mem_shape_dim(end_ch_out, 0) < num_uvw)
+    {
+        SDP_LOG_ERROR("Inconsistent array dimensions");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+    }
+}
+
+
 template<typename UVW_TYPE>
 void clamp_channels_single(
         const sdp_Mem* uvws,
@@ -32,35 +65,19 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
     {
         const double u0 = uvws_(i, dim) * (freq0_hz / C_0);
         const double du = uvws_(i, dim) * (dfreq_hz / C_0);
-        const double rel_min_u = fabs(min_u - u0);
-        const double rel_max_u = fabs(max_u - u0);
-        const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
-        if (fabs(du) > eta_u) // Use a safe value for eta.
-        {
-            const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-            const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
-            const int is_positive = du > 0;
-            const int start_ch_ = is_positive ? (int) mins : (int) maxs;
-            const int end_ch_ = is_positive ? (int) maxs : (int) mins;
-            start_chs_out_(i) = MAX(start_chs_in_(i), start_ch_);
-            end_chs_out_(i) = MIN(end_chs_in_(i), end_ch_);
-        }
-        else if (min_u > u0 || max_u <= u0)
-        {
-            start_chs_out_(i) = 0;
-            end_chs_out_(i) = 0;
-        }
-        else
-        {
-            start_chs_out_(i) = start_chs_in_(i);
-            end_chs_out_(i) = end_chs_in_(i);
-        }
+        int64_t start_ch = 0, end_ch = 0;
+        sdp_gridder_channel_range_inline(u0, du, min_u, max_u,
+                &start_ch, &end_ch
+        );
+        start_chs_out_(i) = MAX(start_chs_in_(i), (int) start_ch);
+        end_chs_out_(i) = MIN(end_chs_in_(i), (int) end_ch);
         end_chs_out_(i) = MAX(end_chs_out_(i), start_chs_out_(i));
     }
 }
@@ -93,58 +110,29 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
     {
         const double u0 = uvws_(i, 0) * (freq0_hz / C_0);
         const double du = uvws_(i, 0) * (dfreq_hz / C_0);
-        const double rel_min_u = fabs(min_u - u0);
-        const double rel_max_u = fabs(max_u - u0);
-        const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
-        if (fabs(du) > eta_u) // Use a safe value for eta.
-        {
-            const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-            const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
-            const int is_positive = du > 0;
-            const int start_ch_ = is_positive ? (int) mins : (int) maxs;
-            const int end_ch_ = is_positive ? (int) maxs : (int) mins;
-            start_chs_out_(i) = MAX(start_chs_in_(i), start_ch_);
-            end_chs_out_(i) = MIN(end_chs_in_(i), end_ch_);
-        }
-        else if (min_u > u0 || max_u <= u0)
-        {
-            start_chs_out_(i) = 0;
-            end_chs_out_(i) = 0;
-        }
-        else
-        {
-            start_chs_out_(i) = start_chs_in_(i);
-            end_chs_out_(i) = end_chs_in_(i);
-        }
+        int64_t start_ch = 0, end_ch = 0;
+        sdp_gridder_channel_range_inline(u0, du, min_u, max_u,
+                &start_ch, &end_ch
+        );
+        start_chs_out_(i) = MAX(start_chs_in_(i), (int) start_ch);
+        end_chs_out_(i) = MIN(end_chs_in_(i), (int) end_ch);
         end_chs_out_(i) = MAX(end_chs_out_(i), start_chs_out_(i));
         if (start_chs_out_(i) >= end_chs_out_(i)) continue;
 
         const double v0 = uvws_(i, 1) * (freq0_hz / C_0);
         const double dv = uvws_(i, 1) * (dfreq_hz / C_0);
-        const double rel_min_v = fabs(min_v - v0);
-        const double rel_max_v = fabs(max_v - v0);
-        const double eta_v = MAX(rel_min_v, rel_max_v) / 2147483645.0;
-        if (fabs(dv) > eta_v) // Use a safe value for eta.
-        {
-            const int64_t mins = (int64_t) (ceil((min_v - v0) / dv));
-            const int64_t maxs = (int64_t) (ceil((max_v - v0) / dv));
-            const int is_positive = dv > 0;
-            const int start_ch_ = is_positive ? (int) mins : (int) maxs;
-            const int end_ch_ = is_positive ? (int) maxs : (int) mins;
-            start_chs_out_(i) = MAX(start_chs_out_(i), start_ch_);
-            end_chs_out_(i) = MIN(end_chs_out_(i), end_ch_);
-        }
-        else if (min_v > v0 || max_v <= v0)
-        {
-            start_chs_out_(i) = 0;
-            end_chs_out_(i) = 0;
-        }
+        sdp_gridder_channel_range_inline(v0, dv, min_v, max_v,
+                &start_ch, &end_ch
+        );
+        start_chs_out_(i) = MAX(start_chs_out_(i), (int) start_ch);
+        end_chs_out_(i) = MIN(end_chs_out_(i), (int) end_ch);
         end_chs_out_(i) = MAX(end_chs_out_(i), start_chs_out_(i));
     }
 }
@@ -174,6 +162,10 @@ void sdp_gridder_clamp_channels_single(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_params(uvws, dim, start_ch_in, end_ch_in,
+            start_ch_out, end_ch_out, start_row, end_row, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
@@ -273,6 +265,10 @@ void sdp_gridder_clamp_channels_uv(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    check_params(uvws, 0, start_ch_in, end_ch_in,
+            start_ch_out, end_ch_out, start_row, end_row, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
index 76fc2ad..0224ee6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
@@ -96,6 +96,61 @@ void sdp_gridder_clamp_channels_uv(
 /** @} */ /* End group gridder_clamp_chan_func. */
 
 
+/**
+ * @brief Find the range of channels for which a coordinate lies in an interval.
+ *
+ * The coordinate at channel ``i`` is ``u0 + i * du``. The range does not
+ * consider how many channels there are, so it may start before channel 0,
+ * and its ends are limited to values which fit in an integer.
+ * Visibilities with undefined coordinates are not in any interval.
+ *
+ * @param u0 Coordinate at channel 0.
+ * @param du Change of coordinate per channel.
+ * @param min_u Minimum value of coordinate (inclusive).
+ * @param max_u Maximum value of coordinate (exclusive).
+ * @param start_ch First channel in the interval.
+ * @param end_ch End of channels in the interval (exclusive).
+ */
+SDP_INLINE
+void sdp_gridder_channel_range_inline(
+        const double u0,
+        const double du,
+        const double min_u,
+        const double max_u,
+        int64_t* start_ch,
+        int64_t* end_ch
+)
+{
+    // The quotients below may be (much) larger than any integer.
+    const double limit = 2147483645.0;
+    if (du > 0.0)
+    {
+        const double start_ = ceil((min_u - u0) / du);
+        const double end_ = ceil((max_u - u0) / du);
+        *start_ch = (int64_t) fmin(fmax(start_, -limit), limit);
+        *end_ch = (int64_t) fmin(fmax(end_, -limit), limit);
+    }
+    else if (du < 0.0)
+    {
+        // The coordinate decreases, so a channel exactly at the maximum
+        // is the last one not in the range.
+        const double start_ = floor((max_u - u0) / du) + 1.0;
+        const double end_ = floor((min_u - u0) / du) + 1.0;
+        *start_ch = (int64_t) fmin(fmax(start_, -limit), limit);
+        *end_ch = (int64_t) fmin(fmax(end_, -limit), limit);
+    }
+    else if (min_u <= u0 && u0 < max_u)
+    {
+        *start_ch = (int64_t) -limit;
+        *end_ch = (int64_t) limit;
+    }
+    else
+    {
+        *start_ch = 0;
+        *end_ch = 0;
+    }
+}
+
 /**
  * @brief Clamp channels for a particular uvw position.
  *
@@ -127,43 +182,14 @@ void sdp_gridder_clamp_channels_inline(
     const double u0 = freq0_hz * u / C_0;
     const double du = dfreq_hz * u / C_0;
 
-    // We want to calculate (min_u - u0) / du and (max_u - u0) / du
-    // but that has a chance of overflowing integers. So here we
-    // "smartly" calculate lower bounds for du to make this safe.
-    const double min_u_rel = fabs(min_u - u0);
-    const double max_u_rel = fabs(max_u - u0);
-    const double eta = MAX(min_u_rel, max_u_rel) / 2147483645.0;
-
-    // Note the symmetry below: we get precisely the same expression
-    // for maximum and minimum, however start_ch is inclusive but
-    // end_ch is exclusive. This means that two calls to
-    // clamp_channels where any min_uvw is equal to any max_uvw will
-    // never return overlapping channel ranges.
-    if (du > eta)
-    {
-        const int64_t start_ch_ = int64_t(ceil((min_u - u0) / du));
-        const int64_t end_ch_ = int64_t(ceil((max_u - u0) / du));
-        *start_ch = MAX(*start_ch, start_ch_);
-        *end_ch = MIN(*end_ch, end_ch_);
-    }
-    else if (du < -eta)
-    {
-        const int64_t start_ch_ = int64_t(ceil((max_u - u0) / du));
-        const int64_t end_ch_ = int64_t(ceil((min_u - u0) / du));
-        *start_ch = MAX(*start_ch, start_ch_);
-        *end_ch = MIN(*end_ch, end_ch_);
-    }
-    else
-    {
-        // Assume u = u0, which makes this a binary decision:
-        // Does the range include u0 or not? Also let's be careful
-        // just in case somebody puts a subgrid boundary right at u0.
-        if (min_u > u0 || max_u <= u0)
-        {
-            *start_ch = 0;
-            *end_ch = 0;
-        }
-    }
+    // Two calls to clamp_channels where any min_uvw is equal to any max_uvw
+    // will never return overlapping channel ranges.
+    int64_t start_ch_ = 0, end_ch_ = 0;
+    sdp_gridder_channel_range_inline(u0, du, min_u, max_u,
+            &start_ch_, &end_ch_
+    );
+    *start_ch = MAX(*start_ch, start_ch_);
+    *end_ch = MIN(*end_ch, end_ch_);
     if (*end_ch <= *start_ch)
     {
         *start_ch = 0;
-- 
2.43.0


From 4eb45cb51f4f722c36df768422f82c25776029b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 29/66] fix: grid centre, negative w, and argument checks in
 custom-kernel degridding

---
 .../grid_data/sdp_degrid_uvw_custom.cpp       | 88 +++++++++++++------
 1 file changed, 61 insertions(+), 27 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..fa27613 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -19,46 +19,60 @@
 using std::complex;
 
 
-static inline void calculate_coordinates(
-        int64_t grid_size, // dimension of the image's subgrid grid_size x grid_size x 4?
-        int kernel_stride, // padding of the gcf kernel
-        int oversample, // oversampling of the uv kernel
-        int wkernel_stride, // padding of the gcf w kernel
-        int oversample_w, // oversampling of the w kernel
+static inline bool calculate_coordinates(
+        int64_t x_size, // size of the grid in the x dimension
+        int64_t y_size, // size of the grid in the y dimension
+        int64_t kernel_stride, // padding of the gcf kernel
+        int64_t oversample, // oversampling of the uv kernel
+        int64_t wkernel_stride, // padding of the gcf w kernel
+        int64_t oversample_w, // oversampling of the w kernel
         double theta, // conversion parameter from uv coordinates to xy coordinates x=u*theta
         double wstep, // conversion parameter from w coordinates to z coordinates z=w*wstep
         double u, //
         double v, // coordinates of the visibility
         double w, //
-        int* sub_offset_x, //
-        int* sub_offset_y, // fractional coordinates
-        int* sub_offset_z, //
-        int* grid_coord_x, // grid coordinates
-        int* grid_coord_y  //
+        int64_t* sub_offset_x, //
+        int64_t* sub_offset_y, // fractional coordinates
+        int64_t* sub_offset_z, //
+        int64_t* grid_coord_x, // grid coordinates
+        int64_t* grid_coord_y  //
 )
 {
-    // u or x coordinate
+    // Offsets from the centre of the grid, in units of the oversampled cells.
     const double ox = theta * u * oversample;
-    const int iox = (int)round(ox) + (grid_size / 2 + 1) * oversample - 1;
-    const int home_x = iox / oversample;
-    const int frac_x = oversample - 1 - (iox % oversample);
+    const double oy = theta * v * oversample;
+    const double oz = (1.0 + w / wstep) * oversample_w;
+
+    // Check that positions can be represented (also false if undefined).
+    const double limit = 1e15;
+    if (!(fabs(ox) < limit && fabs(oy) < limit && fabs(oz) < limit))
+    {
+        return false;
+    }
+
+    // u or x coordinate
+    const int64_t iox = (int64_t)round(ox) +
+            (x_size / 2 + 1) * oversample - 1;
+    const int64_t home_x = iox / oversample;
+    const int64_t frac_x = oversample - 1 - (iox % oversample);
 
     // v or y coordinate
-    const double oy = theta * v * oversample;
-    const int ioy = (int)round(oy) + (grid_size / 2 + 1) * oversample - 1;
-    const int home_y = ioy / oversample;
-    const int frac_y = oversample - 1 - (ioy % oversample);
+    const int64_t ioy = (int64_t)round(oy) +
+            (y_size / 2 + 1) * oversample - 1;
+    const int64_t home_y = ioy / oversample;
+    const int64_t frac_y = oversample - 1 - (ioy % oversample);
 
-    // w or z coordinate
-    const double oz = (1.0 + w / wstep) * oversample_w;
-    const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    // w or z coordinate: can be negative.
+    const int64_t ioz = (int64_t)round(oz) + oversample_w - 1;
+    const int64_t mod_z = ((ioz % oversample_w) + oversample_w) % oversample_w;
+    const int64_t frac_z = oversample_w - 1 - mod_z;
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
     *sub_offset_z = wkernel_stride * frac_z;
     *grid_coord_x = home_x;
     *grid_coord_y = home_y;
+    return true;
 }
 
 
@@ -106,10 +120,11 @@ static void degrid_uvw_custom(
                 const double inv_wavelength =
                         (channel_start_hz + i_channel * channel_step_hz) / C_0;
 
-                int sub_offset_x = 0, sub_offset_y = 0, sub_offset_z = 0;
-                int grid_coord_x = 0, grid_coord_y = 0;
-                calculate_coordinates(
+                int64_t sub_offset_x = 0, sub_offset_y = 0, sub_offset_z = 0;
+                int64_t grid_coord_x = 0, grid_coord_y = 0;
+                const bool is_valid = calculate_coordinates(
                         x_size,
+                        y_size,
                         uv_kernel_size,
                         uv_kernel_oversampling,
                         w_kernel_size,
@@ -127,7 +142,7 @@ static void degrid_uvw_custom(
                 );
 
                 // Check point is fully within the grid.
-                if (!(grid_coord_x > half_uv_kernel_size &&
+                if (!is_valid || !(grid_coord_x > half_uv_kernel_size &&
                         grid_coord_x < x_size - half_uv_kernel_size &&
                         grid_coord_y > half_uv_kernel_size &&
                         grid_coord_y < y_size - half_uv_kernel_size))
@@ -217,6 +232,15 @@ void sdp_degrid_uvw_custom(
             num_times, num_baselines, status
     );
 
+    sdp_mem_check_c_contiguity(vis, status);
+    sdp_mem_check_num_dims(grid, 5, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_num_dims(uv_kernel, 2, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_num_dims(w_kernel, 2, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
+    if (*status) return;
+
     const int64_t uv_kernel_oversampling = sdp_mem_shape_dim(uv_kernel, 0);
     const int64_t uv_kernel_size = sdp_mem_shape_dim(uv_kernel, 1);
     const int64_t w_kernel_oversampling = sdp_mem_shape_dim(w_kernel, 0);
@@ -251,6 +275,16 @@ void sdp_degrid_uvw_custom(
         return;
     }
 
+    if (uv_kernel_oversampling < 1 || w_kernel_oversampling < 1 ||
+            w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Kernels must have an oversampling of at least 1, "
+                "and the w-kernel must fit in the grid"
+        );
+        return;
+    }
+
     if (vis_location == SDP_MEM_CPU)
     {
         degrid_uvw_custom(
-- 
2.43.0


From 8b755cf03decb36ff14caedd8fbbf23931d51209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 30/66] fix: facet offsets, odd sizes, signs, strides, shapes
 and leak in SwiFTly

---
 .../fourier_transforms/sdp_swiftly.cpp        | 97 +++++++++++--------
 1 file changed, 58 insertions(+), 39 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..2539b36 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -150,6 +150,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
@@ -182,10 +183,12 @@ void sdp_swiftly_prepare_facet(
 
     // Parameter checks
     const int64_t yN_size = swiftly->yN_size;
-    if (sdp_mem_num_dims(facet) > 1 && sdp_mem_shape_dim(facet, 1) > yN_size)
+    if (sdp_mem_num_dims(facet) > 1 &&
+            (sdp_mem_shape_dim(facet, 1) > yN_size ||
+            sdp_mem_shape_dim(facet, 1) < 1))
     {
-        SDP_LOG_ERROR("Facet data too large (%d>%d)!",
-                sdp_mem_shape_dim(facet, 1), yN_size
+        SDP_LOG_ERROR("Facet data empty or too large (%d, %d)!",
+                (int)sdp_mem_shape_dim(facet, 1), (int)yN_size
         );
         *status = SDP_ERR_INVALID_ARGUMENT;
     }
@@ -357,6 +360,7 @@ void sdp_swiftly_add_to_subgrid(
     const int64_t xM_size = swiftly->xM_size;
     const int64_t image_size = swiftly->image_size;
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
+    const int64_t half_up = xM_yN_size - xM_yN_size / 2;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
@@ -385,12 +389,12 @@ void sdp_swiftly_add_to_subgrid(
         for (i = 0; i < stop1; i++)
         {
             out(i0, i + offs) += Fn(i) *
-                    contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size);
+                    contrib(i0, (i + fct_offs + half_up) % xM_yN_size);
         }
         for (; i < xM_yN_size; i++)
         {
             out(i0, i + offs - xM_size) += Fn(i) *
-                    contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size);
+                    contrib(i0, (i + fct_offs + half_up) % xM_yN_size);
         }
     }
 }
@@ -411,22 +415,27 @@ void sdp_swiftly_add_to_subgrid_2d(
     const int64_t xM_size = swiftly->xM_size;
     const int64_t image_size = swiftly->image_size;
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
+    const int64_t half_up = xM_yN_size - xM_yN_size / 2;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -444,15 +453,15 @@ void sdp_swiftly_add_to_subgrid_2d(
         for (; i1 < stop1; i1++)
         {
             out(i0 + offs0, i1 + offs1) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
                     );
         }
         for (; i1 < xM_yN_size; i1++)
         {
             out(i0 + offs0, i1 + offs1 - xM_size) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
                     );
         }
     }
@@ -463,15 +472,15 @@ void sdp_swiftly_add_to_subgrid_2d(
         for (; i1 < stop1; i1++)
         {
             out(i0 + offs0 - xM_size, i1 + offs1) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
                     );
         }
         for (; i1 < xM_yN_size; i1++)
         {
             out(i0 + offs0 - xM_size, i1 + offs1 - xM_size) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
                     );
         }
     }
@@ -566,12 +575,13 @@ void sdp_swiftly_finish_subgrid(
             sdp_mem_shape_dim(subgrid_out, 1) > xM_size)
     {
         SDP_LOG_ERROR("Subgrid data too large (%d>%d)!",
-                sdp_mem_shape_dim(subgrid_out, 1), xM_size
+                (int)sdp_mem_shape_dim(subgrid_out, 1), (int)xM_size
         );
         *status = SDP_ERR_INVALID_ARGUMENT;
     }
     sdp_mem_check_same_shape(subgrid_image, 0, subgrid_out, 0, status);
     if (*status) return;
+    if (sg.shape[0] * xM_size == 0) return;
 
     // Allocate temporary memory
     sdp_Mem* buf_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
@@ -699,7 +709,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
@@ -769,8 +779,8 @@ void sdp_swiftly_prepare_subgrid_inplace(
         for (int64_t i0 = 0; i0 < bc0_size; i0++)
         {
             std::complex<double> tmp = sg(i0, i);
-            sg(i0, i) = phasor * sg(i0, i + xM_size / 2);
-            sg(i0, i + xM_size / 2) = phasor * step2 * tmp;
+            sg(i0, i) = phasor * step2 * sg(i0, i + xM_size / 2);
+            sg(i0, i + xM_size / 2) = phasor * tmp;
         }
     }
 }
@@ -828,15 +838,16 @@ void sdp_swiftly_prepare_subgrid_inplace_2d(
         {
             std::complex<double> tmp = sg(i0, i1);
             sg(i0, i1) =
-                    phasor1 * sg(i0 + xM_size / 2, i1 + xM_size / 2);
+                    phasor1 * step0_2 * step1_2 *
+                    sg(i0 + xM_size / 2, i1 + xM_size / 2);
             sg(i0 + xM_size / 2, i1 + xM_size / 2) =
-                    phasor1 * step0_2 * step1_2 * tmp;
+                    phasor1 * tmp;
 
             std::complex<double> tmp2 = sg(i0 + xM_size / 2, i1);
             sg(i0 + xM_size / 2, i1) =
-                    phasor1 * step0_2 * sg(i0, i1 + xM_size / 2);
+                    phasor1 * step1_2 * sg(i0, i1 + xM_size / 2);
             sg(i0, i1 + xM_size / 2) =
-                    phasor1 * step1_2 * tmp2;
+                    phasor1 * step0_2 * tmp2;
         }
     }
 }
@@ -859,6 +870,7 @@ void sdp_swiftly_extract_from_subgrid(
     const int64_t xM_size = swiftly->xM_size;
     const int64_t image_size = swiftly->image_size;
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
+    const int64_t half_up = xM_yN_size - xM_yN_size / 2;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
@@ -875,7 +887,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -884,12 +897,12 @@ void sdp_swiftly_extract_from_subgrid(
         int64_t i = 0;
         for (; i < stop1; i++)
         {
-            contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size) =
+            contrib(i0, (i + fct_offs + half_up) % xM_yN_size) =
                     sg_img(i0, i + offs) * Fn(i);
         }
         for (; i < xM_yN_size; i++)
         {
-            contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size) =
+            contrib(i0, (i + fct_offs + half_up) % xM_yN_size) =
                     sg_img(i0, i + offs - xM_size) * Fn(i);
         }
     }
@@ -928,22 +941,27 @@ void sdp_swiftly_extract_from_subgrid_2d(
     const int64_t xM_size = swiftly->xM_size;
     const int64_t image_size = swiftly->image_size;
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
+    const int64_t half_up = xM_yN_size - xM_yN_size / 2;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -960,15 +978,15 @@ void sdp_swiftly_extract_from_subgrid_2d(
         int64_t i1 = 0;
         for (; i1 < stop1; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0, i1 + offs1);
         }
         for (; i1 < xM_yN_size; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0, i1 + offs1 - xM_size);
         }
@@ -979,15 +997,15 @@ void sdp_swiftly_extract_from_subgrid_2d(
         int64_t i1 = 0;
         for (; i1 < stop1; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0 - xM_size, i1 + offs1);
         }
         for (; i1 < xM_yN_size; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + half_up) % xM_yN_size,
+                    (i1 + fct_offs1 + half_up) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0 - xM_size,
                     i1 + offs1 - xM_size
@@ -1089,10 +1107,11 @@ void sdp_swiftly_finish_facet(
     // Parameter checks
     const int64_t yN_size = swiftly->yN_size;
     if (sdp_mem_num_dims(facet_out) > 1 &&
-            sdp_mem_shape_dim(facet_out, 1) > yN_size)
+            (sdp_mem_shape_dim(facet_out, 1) > yN_size ||
+            sdp_mem_shape_dim(facet_out, 1) < 1))
     {
-        SDP_LOG_ERROR("Facet data too large (%d>%d)!",
-                sdp_mem_shape_dim(facet_out, 1), yN_size
+        SDP_LOG_ERROR("Facet data empty or too large (%d, %d)!",
+                (int)sdp_mem_shape_dim(facet_out, 1), (int)yN_size
         );
         *status = SDP_ERR_INVALID_ARGUMENT;
     }
-- 
2.43.0


From 65ab405d96dd9ae19d90168597273520899834d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 31/66] fix: timers follow the monotonic clock; slots, empty
 sets and quartiles of timer nodes

---
 src/ska-sdp-func/utility/sdp_timer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_timer.cpp b/src/ska-sdp-func/utility/sdp_timer.cpp
index 1e2b74d..0cdecaf 100644
--- a/src/ska-sdp-func/utility/sdp_timer.cpp
+++ b/src/ska-sdp-func/utility/sdp_timer.cpp
@@ -48,7 +48,7 @@ static double sdp_get_wtime(sdp_Timer* timer)
     LARGE_INTEGER cntr;
     QueryPerformanceCounter(&cntr);
     return (double)(cntr.QuadPart) / timer->freq;
-#elif _POSIX_MONOTONIC_CLOCK > 0
+#elif defined(_POSIX_MONOTONIC_CLOCK) && _POSIX_MONOTONIC_CLOCK >= 0
     /* Use monotonic clock if available. */
     struct timespec ts;
     (void)timer;
@@ -235,6 +235,7 @@ struct sdp_TimerNode
     // Get the maximum elapsed time from the set of timers in the node.
     static double get_max_time(const sdp_TimerNode* node)
     {
+        if (node->tmr.empty()) return 0;
         vector<double> time(node->tmr.size());
         for (size_t i = 0; i < time.size(); ++i)
         {
@@ -280,7 +281,7 @@ struct sdp_TimerNode
             sum += elapsed;
             if (node.tmr.size() > 1)
             {
-                const int num = (int) node.tmr.size(), quart = num / 4;
+                const int num = (int) node.tmr.size();
                 vector<double> time(num);
                 for (int i = 0; i < num; ++i)
                 {
@@ -293,7 +294,7 @@ struct sdp_TimerNode
                 WRITE_LINE("Maximum", time[num - 1]);
                 WRITE_LINE("Median",  time[num / 2]);
                 WRITE_TIME("Interquartile range",
-                        (time[3 * quart] - time[quart])
+                        (time[3 * num / 4] - time[num / 4])
                 );
             }
             if (node.child.size() > 0)
@@ -362,7 +363,7 @@ sdp_TimerNode* sdp_timers_create_set(
     sdp_TimerNode* node = sdp_TimerNode::get(
             name, parent ? parent : timers->current_node
     );
-    if (node->tmr.size() == 0) node->tmr.resize(num, NULL);
+    if (num > (int) node->tmr.size()) node->tmr.resize(num, NULL);
     return node;
 }
 
@@ -375,7 +376,10 @@ sdp_TimerNode* sdp_timers_pop(
 {
     sdp_TimerNode* node = timer ? timer : timers->current_node;
     if (node == timers->root_node) return timer ? node : NULL;
-    sdp_timer_pause(node->tmr[idx]);
+    if (idx < (int) node->tmr.size() && node->tmr[idx])
+    {
+        sdp_timer_pause(node->tmr[idx]);
+    }
     if (!timer) timers->current_node = node->parent;
     return timer ? node->parent : NULL;
 }
@@ -403,7 +407,7 @@ sdp_TimerNode* sdp_timers_push(
     sdp_TimerNode* node = sdp_TimerNode::get(
             name, parent ? parent : timers->current_node
     );
-    if (node->tmr.size() == 0) node->tmr.resize(1, NULL);
+    if (idx >= (int) node->tmr.size()) node->tmr.resize(idx + 1, NULL);
     if (!node->tmr[idx]) node->tmr[idx] = sdp_timer_create(timers->type);
     sdp_timer_resume(node->tmr[idx]);
     if (!parent) timers->current_node = node;
-- 
2.43.0


From a1b6fad061e9d1fedfa30850a4bee97dc6be2215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 32/66] fix: consistent time stamps and no data race in log
 messages

---
 src/ska-sdp-func/utility/sdp_logging.c | 83 ++++++++++++++------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index c8eefc1..688ec3f 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -1,5 +1,9 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#ifndef _POSIX_C_SOURCE
+#define _POSIX_C_SOURCE 200112L // For gmtime_r().
+#endif
+
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -8,7 +12,44 @@
 
 #include "ska-sdp-func/utility/sdp_logging.h"
 
-static sdp_LogLevel log_filter = SDP_LOG_LEVEL_UNDEF;
+static int log_filter = SDP_LOG_LEVEL_UNDEF;
+
+
+// Returns the minimum level of the messages to write.
+static int get_log_filter()
+{
+    int level = __atomic_load_n(&log_filter, __ATOMIC_RELAXED);
+    if (level != SDP_LOG_LEVEL_UNDEF) return level;
+
+    // Check environment variable for log filter, if not defined.
+    level = SDP_LOG_LEVEL_INFO;
+    const char* env = getenv("SKA_SDP_FUNC_LOG_LEVEL");
+    if (env)
+    {
+        if (!strncmp(env, "debug", 5) || !strncmp(env, "DEBUG", 5))
+        {
+            level = SDP_LOG_LEVEL_DEBUG;
+        }
+        else if (!strncmp(env, "info", 4) || !strncmp(env, "INFO", 4))
+        {
+            level = SDP_LOG_LEVEL_INFO;
+        }
+        else if (!strncmp(env, "warn", 4) || !strncmp(env, "WARN", 4))
+        {
+            level = SDP_LOG_LEVEL_WARNING;
+        }
+        else if (!strncmp(env, "err", 3) || !strncmp(env, "ERR", 3))
+        {
+            level = SDP_LOG_LEVEL_ERROR;
+        }
+        else if (!strncmp(env, "crit", 4) || !strncmp(env, "CRIT", 4))
+        {
+            level = SDP_LOG_LEVEL_CRITICAL;
+        }
+    }
+    __atomic_store_n(&log_filter, level, __ATOMIC_RELAXED);
+    return level;
+}
 
 
 // Minimal SKA-compatible logging function.
@@ -22,48 +63,16 @@ void sdp_log_message(
         ...
 )
 {
-    // Check environment variable for log filter, if not defined.
-    if (log_filter == SDP_LOG_LEVEL_UNDEF)
-    {
-        const char* env = getenv("SKA_SDP_FUNC_LOG_LEVEL");
-        if (env)
-        {
-            if (!strncmp(env, "debug", 5) || !strncmp(env, "DEBUG", 5))
-            {
-                log_filter = SDP_LOG_LEVEL_DEBUG;
-            }
-            else if (!strncmp(env, "info", 4) || !strncmp(env, "INFO", 4))
-            {
-                log_filter = SDP_LOG_LEVEL_INFO;
-            }
-            else if (!strncmp(env, "warn", 4) || !strncmp(env, "WARN", 4))
-            {
-                log_filter = SDP_LOG_LEVEL_WARNING;
-            }
-            else if (!strncmp(env, "err", 3) || !strncmp(env, "ERR", 3))
-            {
-                log_filter = SDP_LOG_LEVEL_ERROR;
-            }
-            else if (!strncmp(env, "crit", 4) || !strncmp(env, "CRIT", 4))
-            {
-                log_filter = SDP_LOG_LEVEL_CRITICAL;
-            }
-        }
-        else
-        {
-            log_filter = SDP_LOG_LEVEL_INFO;
-        }
-    }
-
     // Check filter.
-    if (level < log_filter) return;
+    if ((int) level < get_log_filter()) return;
 
     // Get timestamp, as a string.
     char time_str[48];
     struct timeval tv;
-    const time_t unix_time = time(0);
-    struct tm* timeinfo = gmtime(&unix_time);
+    struct tm time_utc;
     gettimeofday(&tv, 0);
+    const time_t unix_time = tv.tv_sec;
+    const struct tm* timeinfo = gmtime_r(&unix_time, &time_utc);
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
             timeinfo->tm_year + 1900, timeinfo->tm_mon + 1, timeinfo->tm_mday,
-- 
2.43.0


From 72f94a94ad4e76554c0ef92eb72ed8b85df71a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 33/66] fix: searches for the w-tower height always end,
 worst-case images without or beyond a field of view

---
 .../grid_data/sdp_gridder_wtower_height.cpp   | 77 ++++++++++++++-----
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..3f9f5f7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -15,6 +15,9 @@ using std::complex;
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Give up searching beyond this number of w-planes.
+const int MAX_W_PLANE = 1 << 24;
+
 // Local function to find the accuracy of the supplied gridder configuration.
 double find_gridder_accuracy(
         sdp_GridderWtowerUVW* kernel,
@@ -36,7 +39,7 @@ double find_gridder_accuracy(
 
     // Allocate local scratch arrays.
     if (num_samples == 0) num_samples = 3;
-    const int64_t num_rows = num_samples * num_samples;
+    const int64_t num_rows = (int64_t) num_samples * num_samples;
     const int64_t num_src = 4;
     const int64_t image_shape[] = {image_size, image_size};
     const int64_t src_lmn_shape[] = {num_src, 3};
@@ -120,10 +123,11 @@ double find_gridder_accuracy(
     if (subgrid_frac == 0.0) subgrid_frac = 2.0 / 3.0;
     const double start = -subgrid_size * subgrid_frac / theta / 2;
     const double end = subgrid_size * subgrid_frac / theta / 2;
-    const double step = (end - start) / (num_samples - 1);
+    const double step =
+            num_samples > 1 ? (end - start) / (num_samples - 1) : 0.0;
     sdp_MemViewCpu<double, 2> uvws_;
     sdp_mem_check_and_view(uvws, &uvws_, status);
-    for (int i = 0, index = 0; i < num_samples; ++i)
+    for (int i = 0, index = 0; !*status && i < num_samples; ++i)
     {
         for (int j = 0; j < num_samples; ++j, ++index)
         {
@@ -136,7 +140,7 @@ double find_gridder_accuracy(
     // Test gridder at these points.
     sdp_MemViewCpu<int, 1> end_chs_;
     sdp_mem_check_and_view(end_chs, &end_chs_, status);
-    for (int64_t i = 0; i < num_rows; ++i)
+    for (int64_t i = 0; !*status && i < num_rows; ++i)
     {
         end_chs_(i) = 1;
     }
@@ -157,8 +161,9 @@ double find_gridder_accuracy(
     sdp_mem_check_and_view(src_lmn, &lmn_, status);
     sdp_mem_check_and_view(vis_ref, &vis_ref_, status);
     sdp_mem_clear_contents(vis_ref, status);
+    const int64_t num_ref = *status ? 0 : num_rows;
     #pragma omp parallel for
-    for (int64_t i_row = 0; i_row < num_rows; ++i_row)
+    for (int64_t i_row = 0; i_row < num_ref; ++i_row)
     {
         double u = uvws_(i_row, 0), v = uvws_(i_row, 1), w = uvws_(i_row, 2);
         for (int64_t i_src = 0; i_src < num_src; ++i_src)
@@ -203,6 +208,14 @@ double sdp_gridder_determine_max_w_tower_height(
 )
 {
     if (*status) return 0.0;
+    if (num_samples < 0 || subgrid_frac < 0.0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Number of samples and sub-grid fraction "
+                "must not be negative"
+        );
+        return 0.0;
+    }
 
     // Create a gridding kernel to use for the assessment.
     sdp_GridderWtowerUVW* kernel = sdp_gridder_wtower_uvw_create(
@@ -252,6 +265,13 @@ double sdp_gridder_determine_max_w_tower_height(
                 break;
             }
             iw += diw;
+            if (iw > MAX_W_PLANE)
+            {
+                *status = SDP_ERR_INVALID_ARGUMENT;
+                SDP_LOG_ERROR("Target error (%g) is met at any w-tower height",
+                        target_err
+                );
+            }
         }
         else if (diw > 1)
         {
@@ -279,6 +299,12 @@ void sdp_gridder_worst_case_image(
 {
     if (*status) return;
     const int image_size = (int) sdp_mem_shape_dim(image, 0);
+    if (sdp_mem_type(image) != SDP_MEM_COMPLEX_DOUBLE)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
     if (sdp_mem_num_dims(image) != 2 ||
             image_size != sdp_mem_shape_dim(image, 1))
     {
@@ -291,26 +317,35 @@ void sdp_gridder_worst_case_image(
     // divide the subgrid size equally (then there's a good chance we're
     // operating on-grid, and therefore not actually testing the window
     // function).
-    int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    const double max_edge = image_size / theta * fov / 2;
+    if (!(max_edge >= 1 && max_edge <= image_size / 2))
     {
-        fov_edge -= 1;
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Field of view must be at least two pixels, "
+                "and not larger than the image"
+        );
+        return;
     }
-
-    // Put sources into corners, careful not to generate actual symmetries.
-    sdp_mem_clear_contents(image, status);
-    if (sdp_mem_type(image) == SDP_MEM_COMPLEX_DOUBLE)
+    int fov_edge = int(max_edge);
+    while (fov_edge > 1 && image_size % fov_edge == 0)
     {
-        sdp_MemViewCpu<complex<double>, 2> image_;
-        sdp_mem_check_and_view(image, &image_, status);
-        image_(image_size / 2 + fov_edge, image_size / 2 + fov_edge) = 0.3;
-        image_(image_size / 2 - fov_edge, image_size / 2 - fov_edge) = 0.2;
-        image_(image_size / 2 + fov_edge, image_size / 2 - fov_edge - 1) = 0.3;
-        image_(image_size / 2 - fov_edge - 1, image_size / 2 + fov_edge) = 0.2;
+        fov_edge -= 1;
     }
-    else
+    if (fov_edge + image_size / 2 >= image_size ||
+            image_size / 2 - fov_edge - 1 < 0)
     {
-        *status = SDP_ERR_DATA_TYPE;
-        SDP_LOG_ERROR("Unsupported data type");
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image is too small");
+        return;
     }
+
+    // Put sources into corners, careful not to generate actual symmetries.
+    sdp_MemViewCpu<complex<double>, 2> image_;
+    sdp_mem_check_and_view(image, &image_, status);
+    sdp_mem_clear_contents(image, status);
+    if (*status) return;
+    image_(image_size / 2 + fov_edge, image_size / 2 + fov_edge) = 0.3;
+    image_(image_size / 2 - fov_edge, image_size / 2 - fov_edge) = 0.2;
+    image_(image_size / 2 + fov_edge, image_size / 2 - fov_edge - 1) = 0.3;
+    image_(image_size / 2 - fov_edge - 1, image_size / 2 + fov_edge) = 0.2;
 }
-- 
2.43.0


From 62bbf56a62b4882a39afe54ea011c200bc6b6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 34/66] fix: work area bounds and layouts in example functions

---
 .../examples/sdp_function_example_a.cpp       | 34 ++++++++++++++++---
 src/ska-sdp-func/examples/sdp_vector_add.cpp  |  8 +++++
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 14c0fc7..39bccdf 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -31,13 +31,31 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
         );
         return NULL;
     }
+    if (a < 0 || b < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Error creating sdp_FunctionExampleA "
+                "(parameters 'a' and 'b' cannot be negative)"
+        );
+        return NULL;
+    }
     sdp_FunctionExampleA* plan = (sdp_FunctionExampleA*) calloc(
             1, sizeof(sdp_FunctionExampleA)
     );
     plan->a = a;
     plan->b = b;
     plan->c = c;
-    plan->workarea = (float*) calloc(a * b, sizeof(float));
+    const size_t size = (size_t) a * (size_t) b;
+    plan->workarea = (float*) calloc(size > 0 ? size : 1, sizeof(float));
+    if (!plan->workarea)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        SDP_LOG_ERROR("Error creating sdp_FunctionExampleA "
+                "(unable to allocate work area)"
+        );
+        free(plan);
+        return NULL;
+    }
     SDP_LOG_INFO("Created sdp_FunctionExampleA");
     return plan;
 }
@@ -68,8 +86,14 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    const int64_t num_elements = sdp_mem_num_elements(output);
-    if (num_elements < (plan->a * plan->b))
+    if (!sdp_mem_is_c_contiguous(output))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Output must be C-contiguous");
+        return;
+    }
+    const int64_t num_elements = (int64_t) plan->a * (int64_t) plan->b;
+    if (sdp_mem_num_elements(output) < num_elements)
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not big enough");
@@ -81,11 +105,11 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    for (int f = 0; f < num_elements; f++)
+    for (int64_t f = 0; f < num_elements; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
-        for (int i = 0; i < f; i++)
+        for (int64_t i = 0; i < f; i++)
         {
             ftemp = ftemp + plan->workarea[i];
         }
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index 10d3064..c94bd94 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,6 +57,14 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
+    if (!sdp_mem_is_c_contiguous(input_a) ||
+            !sdp_mem_is_c_contiguous(input_b) ||
+            !sdp_mem_is_c_contiguous(output))
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("All vectors must be C-contiguous");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From ee1e4153e60f9b4669fcff6eade2a9d77a44bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 35/66] fix: choice of kernel for images needing grids above
 80000 pixels

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
index 4eba31b..029c8d4 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <climits>
 #include <cmath>
 #include <stdint.h>
 
@@ -511,7 +512,7 @@ void sdp_calculate_params_from_epsilon(
         }
     }
 
-    int min_nu = 80000, min_idx = num_kernels;
+    int min_nu = INT_MAX, min_idx = num_kernels - 1;
 
     for (int i = 0; i < num_opts; ++i)
     {
-- 
2.43.0


From 2e3f133efcfbf06abbf2bab0dad0e0eb72efcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 36/66] fix: plans and shifted transforms with invalid
 arguments, memory of FFT plans

---
 .../fourier_transforms/sdp_fft.cpp            | 54 +++++++++++--------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 0382212..81481bf 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -343,9 +343,10 @@ static void check_params(
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Unsupported data types");
+        return;
     }
-    if (num_dims_fft != sdp_mem_num_dims(input) &&
-            num_dims_fft != sdp_mem_num_dims(input) - 1)
+    if (num_dims_fft < 1 || (num_dims_fft != sdp_mem_num_dims(input) &&
+            num_dims_fft != sdp_mem_num_dims(input) - 1))
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Number of FFT dimensions must be equal to "
@@ -612,9 +613,6 @@ void sdp_fft_create_pocketfft(
     const int32_t num_dims = sdp_mem_num_dims(input);
 
     // Allocate information about data layout.
-    // (Note that this is a std::vector, but was originally allocated
-    //  using calloc. There's a chance this might cause problems with
-    //  certain standard library implementations!)
     for (int i = 0; i < num_dims; i++)
     {
         fft->shape.push_back(sdp_mem_shape_dim(input, i));
@@ -825,7 +823,7 @@ sdp_Fft* sdp_fft_create(
     if (*status) return NULL;
 
     // Allocate space for a plan.
-    sdp_Fft* fft = (sdp_Fft*) calloc(1, sizeof(sdp_Fft));
+    sdp_Fft* fft = new sdp_Fft();
     fft->input = sdp_mem_create_alias(input);
     fft->output = sdp_mem_create_alias(output);
     fft->num_dims = num_dims_fft;
@@ -876,18 +874,23 @@ sdp_Fft* sdp_fft_create(
         *status = SDP_ERR_MEM_LOCATION;
         SDP_LOG_ERROR("Unsupported FFT location");
     }
+    if (*status)
+    {
+        sdp_fft_free(fft);
+        return NULL;
+    }
     return fft;
 }
 
 
-void sdp_fft_exec(
-        sdp_Fft* fft,
-        sdp_Mem* input,
-        sdp_Mem* output,
+// Check that the arrays can be used with the plan.
+static void check_exec(
+        const sdp_Fft* fft,
+        const sdp_Mem* input,
+        const sdp_Mem* output,
         sdp_Error* status
 )
 {
-    if (*status || !fft || !input || !output) return;
     check_params(input, output, fft->num_dims, status);
     if (*status) return;
     if (!sdp_mem_is_matching(fft->input, input, 1) ||
@@ -895,8 +898,20 @@ void sdp_fft_exec(
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Arrays do not match those used for FFT plan creation");
-        return;
     }
+}
+
+
+void sdp_fft_exec(
+        sdp_Fft* fft,
+        sdp_Mem* input,
+        sdp_Mem* output,
+        sdp_Error* status
+)
+{
+    if (*status || !fft || !input || !output) return;
+    check_exec(fft, input, output, status);
+    if (*status) return;
     if (sdp_mem_location(input) == SDP_MEM_GPU)
     {
 #ifdef SDP_HAVE_CUDA
@@ -928,7 +943,8 @@ void sdp_fft_exec_shift(
         sdp_Error* status
 )
 {
-    if (*status) return;
+    if (*status || !fft || !data) return;
+    check_exec(fft, data, data, status);
     sdp_fft_phase(data, status);
     sdp_fft_exec(fft, data, data, status);
     sdp_fft_phase(data, status);
@@ -947,17 +963,11 @@ void sdp_fft_free(sdp_Fft* fft)
 #endif
 #ifdef SDP_HAVE_MKL
     (void) DftiFreeDescriptor(&fft->mkl_plan);
-#endif
-#ifdef SDP_USE_POCKETFFT
-    fft->shape.clear();
-    fft->stride_in.clear();
-    fft->stride_out.clear();
-    fft->axes.clear();
 #endif
     sdp_mem_ref_dec(fft->input);
     sdp_mem_ref_dec(fft->output);
     sdp_mem_free(fft->temp);
-    free(fft);
+    delete fft;
 }
 
 
@@ -982,7 +992,7 @@ static void fft_norm(sdp_Mem* data, sdp_Error* status)
     if (*status) return;
     const int num_x = (int) data_.shape[0];
     const int num_y = (int) data_.shape[1];
-    const double factor = 1.0 / (num_x * num_y);
+    const double factor = 1.0 / ((double) num_x * num_y);
     #pragma omp parallel for
     for (int ix = 0; ix < num_x; ++ix)
     {
@@ -1019,7 +1029,7 @@ void sdp_fft_norm(sdp_Mem* data, sdp_Error* status)
         const int num_y = sdp_mem_shape_dim(data, 1);
         num_blocks[0] = (num_x + num_threads[0] - 1) / num_threads[0];
         num_blocks[1] = (num_y + num_threads[1] - 1) / num_threads[1];
-        const double factor = 1.0 / (num_x * num_y);
+        const double factor = 1.0 / ((double) num_x * num_y);
         sdp_MemViewGpu<complex<double>, 2> data_dbl;
         sdp_MemViewGpu<complex<float>, 2> data_flt;
         const char* kernel_name = 0;
-- 
2.43.0


From 9f24b78928f0a4b1e31b0f67ef94f0118bbb10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 37/66] fix: arrays in different memory spaces in accumulations
 and sums of differences

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 9fc8657..608eba1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -76,6 +76,7 @@ void accum_scale_array(
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 0 || !in2)
@@ -93,6 +94,7 @@ void accum_scale_array(
     {
         sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
+        if (*status) return;
         if (exponent == 1)
         {
             #pragma omp parallel for
@@ -591,6 +593,7 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 1)
@@ -815,7 +818,8 @@ void sdp_gridder_accumulate_scaled_arrays(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(out);
-    if (sdp_mem_location(in1) != loc)
+    if (sdp_mem_location(in1) != loc ||
+            (in2 && exponent != 0 && sdp_mem_location(in2) != loc))
     {
         SDP_LOG_ERROR("All arrays must be in the same memory space");
         *status = SDP_ERR_MEM_LOCATION;
@@ -2068,6 +2072,11 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_gpu = sdp_mem_create(
                 SDP_MEM_INT, SDP_MEM_GPU, 1, shape, status
         );
+        if (*status)
+        {
+            sdp_mem_free(result_gpu);
+            return;
+        }
         sdp_mem_clear_contents(result_gpu, status);
 
         // Call the kernel.
@@ -2099,7 +2108,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
-- 
2.43.0


From 971fb4ed9d4182ae6195d41af7139d0a91ded4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 38/66] fix: gridder plans with invalid sizes, no plan together
 with an error

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp    | 12 ++++++++++++
 .../grid_data/sdp_gridder_wtower_uvw.cpp             | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 198d406..e6ef6f9 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -37,6 +37,13 @@ sdp_GridderDirect* sdp_gridder_direct_create(
         sdp_Error* status
 )
 {
+    if (*status) return NULL;
+    if (image_size < 1 || subgrid_size < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image and subgrid sizes must be positive");
+        return NULL;
+    }
     sdp_GridderDirect* plan = (sdp_GridderDirect*)calloc(
             1, sizeof(sdp_GridderDirect)
     );
@@ -56,6 +63,11 @@ sdp_GridderDirect* sdp_gridder_direct_create(
     {
         ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
     }
+    if (*status)
+    {
+        sdp_gridder_direct_free(plan);
+        return NULL;
+    }
     return plan;
 }
 
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index d58e35a..4ea2f59 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -727,6 +727,13 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
         );
         return NULL;
     }
+    if (image_size < 1 || subgrid_size < 1 || support < 1 || w_support < 1 ||
+            oversampling < 1 || w_oversampling < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Sizes, supports and oversampling must be positive");
+        return NULL;
+    }
     sdp_GridderWtowerUVW* plan = (sdp_GridderWtowerUVW*) calloc(
             1, sizeof(sdp_GridderWtowerUVW)
     );
@@ -765,6 +772,11 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
     sdp_gridder_make_w_pattern(subgrid_size, theta,
             shear_u, shear_v, w_step, plan->w_pattern, status
     );
+    if (*status)
+    {
+        sdp_gridder_wtower_uvw_free(plan);
+        return NULL;
+    }
 
     return plan;
 }
-- 
2.43.0


From 807f05a448a49f5fd189a14d45db5701b9de041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 39/66] fix: w-stack correction for images without a size

---
 src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 562c764..dc20b91 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -275,6 +275,12 @@ void sdp_gridder_grid_correct_w_stack(
 )
 {
     if (*status || w_offset == 0) return;
+    if (image_size < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image size must be positive");
+        return;
+    }
     const sdp_MemLocation loc = sdp_mem_location(facet);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From edf8ba48bb212e0caa0878e856079e15e85eda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 40/66] fix: types and sub-grid images of the w-towers gridder
 are checked whatever the data

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 43 +++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 4ea2f59..b776cf0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -62,8 +62,11 @@ inline bool kernel_fits(
 }
 
 
-// Check the shapes of the visibility data, and the range of rows.
+// Check the types and shapes of the visibility data and the sub-grid image,
+// and the range of rows.
 void check_params(
+        const sdp_GridderWtowerUVW* plan,
+        const sdp_Mem* subgrid_image,
         const sdp_Mem* uvws,
         const sdp_Mem* start_chs,
         const sdp_Mem* end_chs,
@@ -83,7 +86,23 @@ void check_params(
     sdp_mem_check_dim_size(end_chs, 0, num_rows, status);
     sdp_mem_check_num_dims(vis, 2, status);
     sdp_mem_check_dim_size(vis, 0, num_rows, status);
+    sdp_mem_check_num_dims(subgrid_image, 2, status);
+    sdp_mem_check_dim_size(subgrid_image, 0, plan->subgrid_size, status);
+    sdp_mem_check_dim_size(subgrid_image, 1, plan->subgrid_size, status);
     if (*status) return;
+    const sdp_MemType uvw_type = sdp_mem_type(uvws);
+    const sdp_MemType vis_type = sdp_mem_type(vis);
+    if (!((uvw_type == SDP_MEM_DOUBLE && vis_type == SDP_MEM_COMPLEX_DOUBLE) ||
+            (uvw_type == SDP_MEM_DOUBLE && vis_type == SDP_MEM_COMPLEX_FLOAT) ||
+            (uvw_type == SDP_MEM_FLOAT && vis_type == SDP_MEM_COMPLEX_FLOAT)))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data types: uvw has type %s; "
+                "vis has type %s.", sdp_mem_type_name(uvw_type),
+                sdp_mem_type_name(vis_type)
+        );
+        return;
+    }
     if (start_row > num_rows || end_row > num_rows)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -817,9 +836,20 @@ void sdp_gridder_wtower_uvw_degrid(
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
 
-    check_params(
+    check_params(plan, subgrid_image,
             uvws, start_chs, end_chs, vis, start_row, end_row, status
     );
+    if (sdp_mem_num_elements(vis) > 0) sdp_mem_check_writeable(vis, status);
+    if (!*status &&
+            sdp_mem_type(subgrid_image) != sdp_mem_type(vis) &&
+            sdp_mem_type(subgrid_image) !=
+            (sdp_mem_type(vis) & ~SDP_MEM_COMPLEX))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Sub-grid image and visibilities "
+                "must have the same precision"
+        );
+    }
     if (*status) return;
 
     // Copy internal arrays to GPU memory as required.
@@ -1034,9 +1064,16 @@ void sdp_gridder_wtower_uvw_grid(
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
 
-    check_params(
+    check_params(plan, subgrid_image,
             uvws, start_chs, end_chs, vis, start_row, end_row, status
     );
+    sdp_mem_check_writeable(subgrid_image, status);
+    if (!*status && !sdp_mem_is_floating_point(subgrid_image) &&
+            !sdp_mem_is_complex(subgrid_image))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported sub-grid image data type");
+    }
     if (*status) return;
 
     // Copy internal arrays to GPU memory as required.
-- 
2.43.0


From f1aa1038d87b81476a226f53ccaf9f46e85b551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 41/66] Leave the example functions as they were

---
 .../examples/sdp_function_example_a.cpp       | 34 +++----------------
 src/ska-sdp-func/examples/sdp_vector_add.cpp  |  8 -----
 2 files changed, 5 insertions(+), 37 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 39bccdf..14c0fc7 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -31,31 +31,13 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
         );
         return NULL;
     }
-    if (a < 0 || b < 0)
-    {
-        *status = SDP_ERR_INVALID_ARGUMENT;
-        SDP_LOG_ERROR("Error creating sdp_FunctionExampleA "
-                "(parameters 'a' and 'b' cannot be negative)"
-        );
-        return NULL;
-    }
     sdp_FunctionExampleA* plan = (sdp_FunctionExampleA*) calloc(
             1, sizeof(sdp_FunctionExampleA)
     );
     plan->a = a;
     plan->b = b;
     plan->c = c;
-    const size_t size = (size_t) a * (size_t) b;
-    plan->workarea = (float*) calloc(size > 0 ? size : 1, sizeof(float));
-    if (!plan->workarea)
-    {
-        *status = SDP_ERR_MEM_ALLOC_FAILURE;
-        SDP_LOG_ERROR("Error creating sdp_FunctionExampleA "
-                "(unable to allocate work area)"
-        );
-        free(plan);
-        return NULL;
-    }
+    plan->workarea = (float*) calloc(a * b, sizeof(float));
     SDP_LOG_INFO("Created sdp_FunctionExampleA");
     return plan;
 }
@@ -86,14 +68,8 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    if (!sdp_mem_is_c_contiguous(output))
-    {
-        *status = SDP_ERR_RUNTIME;
-        SDP_LOG_ERROR("Output must be C-contiguous");
-        return;
-    }
-    const int64_t num_elements = (int64_t) plan->a * (int64_t) plan->b;
-    if (sdp_mem_num_elements(output) < num_elements)
+    const int64_t num_elements = sdp_mem_num_elements(output);
+    if (num_elements < (plan->a * plan->b))
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not big enough");
@@ -105,11 +81,11 @@ void sdp_function_example_a_exec(
     );
 
     float* output_pointer = (float*) sdp_mem_data(output);
-    for (int64_t f = 0; f < num_elements; f++)
+    for (int f = 0; f < num_elements; f++)
     {
         float ftemp = 0.f;
         plan->workarea[f] = plan->c * f;
-        for (int64_t i = 0; i < f; i++)
+        for (int i = 0; i < f; i++)
         {
             ftemp = ftemp + plan->workarea[i];
         }
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index c94bd94..10d3064 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,14 +57,6 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
-    if (!sdp_mem_is_c_contiguous(input_a) ||
-            !sdp_mem_is_c_contiguous(input_b) ||
-            !sdp_mem_is_c_contiguous(output))
-    {
-        *status = SDP_ERR_RUNTIME;
-        SDP_LOG_ERROR("All vectors must be C-contiguous");
-        return;
-    }
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From 499d8eaec8d340e3ce123a3702042a0ad988fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 42/66] fix: integer overflows when sizes, offsets or orders
 are extreme

---
 .../fourier_transforms/sdp_fft_padded_size.cpp         | 10 +++++++++-
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp       |  3 ++-
 .../grid_data/sdp_gridder_grid_correct.cpp             |  8 ++++----
 src/ska-sdp-func/station_beam/sdp_element_dipole.cpp   |  5 +++--
 .../station_beam/sdp_element_spherical_wave_harp.cpp   |  4 ++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp
index 5340590..6f85a37 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <climits>
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
@@ -103,7 +104,14 @@ int sdp_fft_padded_size(int n, double padding_factor)
     heap_insert(&heap, &heap_size, &heap_capacity, 2);
 
     int64_t prev = 0, next = 0;
-    n = (int) ceil(n * padding_factor);
+    const double padded_size = ceil(n * padding_factor);
+    if (!(fabs(padded_size) < INT_MAX / 2))
+    {
+        SDP_LOG_ERROR("Padded size is not finite, or is too large");
+        free(heap);
+        return 0;
+    }
+    n = (int) padded_size;
     const int64_t limit = (int64_t) n * 2;
     while (heap_size > 0)
     {
diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 1128238..3a63b03 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -619,7 +619,8 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     // The number of expansion coefficients needed (and so the size of all work
     // arrays) increases with c.
     const double max_c = 170.0;
-    if (m < 0 || !(c >= 0.0 && c <= max_c))
+    const int max_m = 10000;
+    if (m < 0 || m > max_m || !(c >= 0.0 && c <= max_c))
     {
         SDP_LOG_ERROR("PSWF parameters out of range: m=%d, c=%g", m, c);
         return 0;
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index dc20b91..fd20015 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -59,13 +59,13 @@ void grid_corr_pswf(
     #pragma omp parallel for
     for (int il = 0; il < num_l; ++il)
     {
-        const int pl = il - num_l / 2 + facet_offset_l;
+        const int64_t pl = (int64_t) il - num_l / 2 + facet_offset_l;
         const double l_ = pl * theta / image_size;
         const double pswf_l = pswf_(pl + image_size / 2);
         for (int im = 0; im < num_m; ++im)
         {
             double pswf_n = 1.0;
-            const int pm = im - num_m / 2 + facet_offset_m;
+            const int64_t pm = (int64_t) im - num_m / 2 + facet_offset_m;
             const double m_ = pm * theta / image_size;
             const double pswf_m = pswf_(pm + image_size / 2);
             if (pswf_n_c > 0.0)
@@ -108,11 +108,11 @@ void grid_corr_w_stack(
     #pragma omp parallel for
     for (int il = 0; il < num_l; ++il)
     {
-        const int pl = il - num_l / 2 + facet_offset_l;
+        const int64_t pl = (int64_t) il - num_l / 2 + facet_offset_l;
         const double l_ = pl * theta / image_size;
         for (int im = 0; im < num_m; ++im)
         {
-            const int pm = im - num_m / 2 + facet_offset_m;
+            const int64_t pm = (int64_t) im - num_m / 2 + facet_offset_m;
             const double m_ = pm * theta / image_size;
             const double n_ = lm_to_n(l_, m_, shear_u, shear_v);
             const double phase = 2.0 * M_PI * w_step * n_ * w_offset;
diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index 44d571a..36ef75a 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -112,8 +112,6 @@ void sdp_element_beam_dipole(
     const int location = sdp_mem_location(element_beam);
     const int element_beam_is_complex4 = sdp_mem_is_complex4(element_beam);
     const sdp_MemType type = sdp_mem_type(element_beam);
-    const int E_theta_offset = index_offset_element_beam;
-    const int E_phi_offset = index_offset_element_beam + 1;
     const double kL = dipole_length_m * (M_PI * freq_hz / C_0);
     const double cos_kL = cos(kL);
     const float kL_f = (float) kL;
@@ -152,6 +150,9 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Inconsistent array sizes");
         return;
     }
+    if (num_points == 0) return;
+    const int E_theta_offset = index_offset_element_beam;
+    const int E_phi_offset = index_offset_element_beam + 1;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index 00134e6..b4813ac 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -168,12 +168,12 @@ void sdp_element_beam_spherical_wave_harp(
     sdp_mem_check_c_contiguity(element_beam, status);
     sdp_mem_check_writeable(element_beam, status);
     if (*status) return;
-    const int64_t num_coeffs = ((int64_t) l_max + 1) * (l_max + 1) - 1;
+    const int64_t num_coeffs = ((int64_t) l_max + 2) * l_max;
     if (num_points < 0 || l_max < 0 || index_offset_element_beam < 0 ||
             sdp_mem_num_elements(theta_rad) < num_points ||
             sdp_mem_num_elements(phi_x_rad) < num_points ||
             sdp_mem_num_elements(phi_y_rad) < num_points ||
-            sdp_mem_num_elements(coeffs) < 4 * num_coeffs ||
+            sdp_mem_num_elements(coeffs) / 4 < num_coeffs ||
             sdp_mem_num_elements(element_beam) <
             4 * ((int64_t) num_points + index_offset_element_beam))
     {
-- 
2.43.0


From c8009af74fde12603174faeb4e548bd7ec529fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 43/66] fix: coordinates too large for the grid or the w-planes
 overran buffers

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 37 +++++++++---
 .../grid_data/sdp_gridder_uvw_es_fft.cpp      |  8 +++
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 56 +++++++++++++++----
 3 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 4cd0ed2..ae1ad0f 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -222,7 +222,8 @@ void check_params(
         SDP_LOG_ERROR("Field of view, w-step and w-tower height must be > 0");
         return;
     }
-    if (!(subgrid_frac > 0.0) || subgrid_frac > 1.0 ||
+    if (subgrid_size < 1 || support < 1 || !(subgrid_frac > 0.0) ||
+            subgrid_frac > 1.0 || support > subgrid_size ||
             effective_size(subgrid_size, support, subgrid_frac) < 1)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -237,21 +238,33 @@ void check_params(
 void check_bounds(
         double uvw_min[3],
         double uvw_max[3],
-        const double dist[3],
+        const double cell_size[3],
+        int eff_sg_size,
         int64_t num_vis,
         sdp_Error* status
 )
 {
+    double num_subgrids = 1.0;
     for (int i = 0; i < 3; ++i)
     {
         // Written so that the check fails if any value is undefined.
         if (!*status && num_vis > 0 && (
-                    !(fabs(uvw_min[i] / dist[i]) < 1e8) ||
-                    !(fabs(uvw_max[i] / dist[i]) < 1e8)))
+                    !(fabs(uvw_min[i] / cell_size[i]) < 1e8) ||
+                    !(fabs(uvw_max[i] / cell_size[i]) < 1e8)))
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_ERROR("Coordinates are not finite, or are too large");
         }
+        if (i < 2)
+        {
+            num_subgrids *= 2.0 +
+                    (uvw_max[i] - uvw_min[i]) / (cell_size[i] * eff_sg_size);
+        }
+    }
+    if (!*status && num_vis > 0 && !(num_subgrids < 1e8))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Too many sub-grids are needed to cover all coordinates");
     }
     if (*status || num_vis == 0)
     {
@@ -419,8 +432,12 @@ void sdp_grid_wstack_wtower_degrid_all(
     sdp_gridder_uvw_bounds_all(
             uvw, freq0_hz, dfreq_hz, start_ch, end_ch, uvw_min, uvw_max, status
     );
-    const double dist[] = {eff_sg_dist, eff_sg_dist, w_stack_dist};
-    check_bounds(uvw_min, uvw_max, dist, num_rows * num_chan, status);
+    const double cell_size[] = {
+        1.0 / theta, 1.0 / theta, w_step * fmin(w_tower_height, 1.0)
+    };
+    check_bounds(uvw_min, uvw_max, cell_size, eff_sg_size,
+            num_rows * num_chan, status
+    );
     int64_t min_iu = int64_t(floor(uvw_min[0] / eff_sg_dist + 0.5 - eta));
     int64_t max_iu = int64_t(floor(uvw_max[0] / eff_sg_dist + 0.5 + eta));
     int64_t min_iv = int64_t(floor(uvw_min[1] / eff_sg_dist + 0.5 - eta));
@@ -683,8 +700,12 @@ void sdp_grid_wstack_wtower_grid_all(
     sdp_gridder_uvw_bounds_all(
             uvw, freq0_hz, dfreq_hz, start_ch, end_ch, uvw_min, uvw_max, status
     );
-    const double dist[] = {eff_sg_dist, eff_sg_dist, w_stack_dist};
-    check_bounds(uvw_min, uvw_max, dist, num_rows * num_chan, status);
+    const double cell_size[] = {
+        1.0 / theta, 1.0 / theta, w_step * fmin(w_tower_height, 1.0)
+    };
+    check_bounds(uvw_min, uvw_max, cell_size, eff_sg_size,
+            num_rows * num_chan, status
+    );
     int64_t min_iu = int64_t(floor(uvw_min[0] / eff_sg_dist + 0.5 - eta));
     int64_t max_iu = int64_t(floor(uvw_max[0] / eff_sg_dist + 0.5 + eta));
     int64_t min_iv = int64_t(floor(uvw_min[1] / eff_sg_dist + 0.5 - eta));
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
index dd94786..689d27f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
@@ -354,6 +354,14 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
             nmin = -sqrt(fabs(1.0 - x0 * x0 - y0 * y0)) - 1.0;
         }
         double w_scale = 0.25 / fabs(nmin); // scaling factor for converting w coord to signed w grid index
+        // Written so that the check fails if any value is undefined.
+        if (!(fabs((max_abs_w - min_abs_w) / w_scale) < 1e9))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Range of w is not finite, or is too large");
+            sdp_gridder_uvw_es_fft_free_plan(plan);
+            return NULL;
+        }
         int num_total_w_grids = (max_abs_w - min_abs_w) / w_scale + 2; // number of w grids required
         w_scale = 1.0 / ((1.0 + 1e-13) * (max_abs_w - min_abs_w) /
                 (num_total_w_grids - 1));
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index b776cf0..8710817 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -111,6 +111,34 @@ void check_params(
 }
 
 
+// Return the range of w-planes needed for the given range of w-coordinates.
+void get_w_planes(
+        const sdp_GridderWtowerUVW* plan,
+        double min_w,
+        double max_w,
+        int subgrid_offset_w,
+        int* first_w_plane,
+        int* last_w_plane,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    const double eta = 1e-5, limit = 1e9;
+    const double first = floor(min_w / plan->w_step - eta) - subgrid_offset_w;
+    const double last = ceil(max_w / plan->w_step + eta) - subgrid_offset_w + 1;
+
+    // Written so that the check fails if any value is undefined.
+    if (!(fabs(first) < limit) || !(fabs(last) < limit))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("w-coordinates are not finite, or are too large");
+        return;
+    }
+    *first_w_plane = (int) first;
+    *last_w_plane = (int) last;
+}
+
+
 // Local function to do the degridding.
 template<typename SUBGRID_TYPE, typename UVW_TYPE, typename VIS_TYPE>
 void degrid(
@@ -768,14 +796,18 @@ sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(
     plan->w_oversampling = w_oversampling;
 
     // Generate oversampled convolution kernel (uv_kernel).
-    const int64_t uv_conv_shape[] = {plan->oversampling + 1, plan->support};
+    const int64_t uv_conv_shape[] = {
+        (int64_t) plan->oversampling + 1, plan->support
+    };
     plan->uv_kernel = sdp_mem_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, uv_conv_shape, status
     );
     sdp_gridder_make_pswf_kernel(plan->support, plan->uv_kernel, status);
 
     // Generate oversampled w convolution kernel (w_kernel).
-    const int64_t w_conv_shape[] = {plan->w_oversampling + 1, plan->w_support};
+    const int64_t w_conv_shape[] = {
+        (int64_t) plan->w_oversampling + 1, plan->w_support
+    };
     plan->w_kernel = sdp_mem_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, w_conv_shape, status
     );
@@ -881,11 +913,11 @@ void sdp_gridder_wtower_uvw_degrid(
     if (*status || !(c_min[2] <= c_max[2])) return;
 
     // Get subgrid at first w-plane.
-    const double eta = 1e-5;
-    const int first_w_plane = (int) floor(c_min[2] / plan->w_step - eta) -
-            subgrid_offset_w;
-    const int last_w_plane = (int) ceil(c_max[2] / plan->w_step + eta) -
-            subgrid_offset_w + 1;
+    int first_w_plane = 0, last_w_plane = 0;
+    get_w_planes(plan, c_min[2], c_max[2], subgrid_offset_w,
+            &first_w_plane, &last_w_plane, status
+    );
+    if (*status) return;
 
     // First w-plane we need to generate is (support / 2) below the first one
     // with visibilities.
@@ -1105,11 +1137,11 @@ void sdp_gridder_wtower_uvw_grid(
     if (*status || !(c_min[2] <= c_max[2])) return;
 
     // Get subgrid at first w-plane.
-    const double eta = 1e-5;
-    const int first_w_plane = (int) floor(c_min[2] / plan->w_step - eta) -
-            subgrid_offset_w;
-    const int last_w_plane = (int) ceil(c_max[2] / plan->w_step + eta) -
-            subgrid_offset_w + 1;
+    int first_w_plane = 0, last_w_plane = 0;
+    get_w_planes(plan, c_min[2], c_max[2], subgrid_offset_w,
+            &first_w_plane, &last_w_plane, status
+    );
+    if (*status) return;
 
     // Create subgrid image and subgrids to accumulate on.
     const int64_t num_elements_sg = plan->subgrid_size * plan->subgrid_size;
-- 
2.43.0


From 749b3add7b1064a65eb81bbc80b48e7e3e17616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 44/66] fix: sub-grid utilities looped for ever or ran out of
 bounds on unusual shapes

---
 .../grid_data/sdp_gridder_utils.cpp           | 63 ++++++++-----------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 608eba1..61572a6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -629,13 +629,14 @@ void shift_subgrids(sdp_Mem* subgrids, sdp_Error* status)
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     if (*status) return;
     const int w_support = subgrids_.shape[0];
-    const int subgrid_size = subgrids_.shape[1];
+    const int num_rows = subgrids_.shape[1];
+    const int num_cols = subgrids_.shape[2];
     for (int k = 0; k < w_support - 1; ++k)
     {
         #pragma omp parallel for
-        for (int j = 0; j < subgrid_size; ++j)
+        for (int j = 0; j < num_rows; ++j)
         {
-            for (int i = 0; i < subgrid_size; ++i)
+            for (int i = 0; i < num_cols; ++i)
             {
                 subgrids_(k, j, i) = subgrids_(k + 1, j, i);
             }
@@ -662,32 +663,25 @@ void subgrid_add(
     sdp_mem_check_and_view(subgrid, &sub_, status);
     if (*status) return;
     // This does the equivalent of numpy.roll and a shift in two dimensions.
-    // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (sub_size_u > grid_size_u || sub_size_v > grid_size_v)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The sub-grid is larger than the grid");
+        return;
+    }
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
         int64_t i1 = i + grid_size_u / 2 - sub_size_u / 2 - offset_u;
-        while (i1 < 0)
-        {
-            i1 += grid_size_u;
-        }
-        while (i1 >= grid_size_u)
-        {
-            i1 -= grid_size_u;
-        }
+        i1 %= grid_size_u;
+        if (i1 < 0) i1 += grid_size_u;
         for (int64_t j = 0; j < sub_size_v; ++j)
         {
             int64_t j1 = j + grid_size_v / 2 - sub_size_v / 2 - offset_v;
-            while (j1 < 0)
-            {
-                j1 += grid_size_v;
-            }
-            while (j1 >= grid_size_v)
-            {
-                j1 -= grid_size_v;
-            }
+            j1 %= grid_size_v;
+            if (j1 < 0) j1 += grid_size_v;
             grid_(i1, j1) += sub_(i, j) * factor;
         }
     }
@@ -711,32 +705,25 @@ void subgrid_cut_out(
     sdp_mem_check_and_view(subgrid, &sub_, status);
     if (*status) return;
     // This does the equivalent of numpy.roll and a shift in two dimensions.
-    // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u == 0 || grid_size_v == 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The grid is empty");
+        return;
+    }
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
         int64_t i1 = i + grid_size_u / 2 - sub_size_u / 2 + offset_u;
-        while (i1 < 0)
-        {
-            i1 += grid_size_u;
-        }
-        while (i1 >= grid_size_u)
-        {
-            i1 -= grid_size_u;
-        }
+        i1 %= grid_size_u;
+        if (i1 < 0) i1 += grid_size_u;
         for (int64_t j = 0; j < sub_size_v; ++j)
         {
             int64_t j1 = j + grid_size_v / 2 - sub_size_v / 2 + offset_v;
-            while (j1 < 0)
-            {
-                j1 += grid_size_v;
-            }
-            while (j1 >= grid_size_v)
-            {
-                j1 -= grid_size_v;
-            }
+            j1 %= grid_size_v;
+            if (j1 < 0) j1 += grid_size_v;
             sub_(i, j) = grid_(i1, j1);
         }
     }
@@ -767,7 +754,7 @@ void sum_diff(
     #pragma omp parallel for reduction(+:res)
     for (int64_t i = start_row; i < end_row; ++i)
     {
-        res += (a_(i) - b_(i));
+        res += ((int64_t) a_(i) - (int64_t) b_(i));
     }
     *result = res;
 }
-- 
2.43.0


From d5ab4f65336a6e8d6d1176d5eb4b8986d288e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 45/66] fix: memory wrappers with negative or overflowing sizes

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 026bcf2..49f9ed3 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -1,6 +1,7 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
 #include <complex>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 
@@ -282,6 +283,18 @@ sdp_Mem* sdp_mem_create_wrapper(
     // Store shape (and strides, if given; otherwise compute them).
     mem->shape = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
     mem->stride = (int64_t*) calloc(mem->num_dims, sizeof(int64_t));
+    int64_t max_elements = INT64_MAX / element_size;
+    for (int32_t i = 0; i < num_dims; ++i)
+    {
+        if (shape[i] < 0 || shape[i] > max_elements)
+        {
+            mem->num_elements = 0;
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_CRITICAL("Array size is negative or too large");
+            return mem;
+        }
+        if (shape[i] > 0) max_elements /= shape[i];
+    }
     for (int32_t i = num_dims - 1; i >= 0; --i)
     {
         mem->shape[i] = shape[i];
-- 
2.43.0


From aef1a2fb28bf1ddc68adacb5f72b27cfd3f99eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:42 +0000
Subject: [PATCH 46/66] fix: flagger looked beyond its channels when the window
 is wider than the band

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 8470ba6..85eeaa8 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -143,7 +143,7 @@ static void flagger_dynamic_threshold(
         const double threshold_variations,
         const double threshold_broadband,
         const int sampling_step,
-        const int window,
+        int window,
         const int window_median_history,
         const int num_timesamples,
         const int num_baselines,
@@ -151,6 +151,8 @@ static void flagger_dynamic_threshold(
         const int num_pols
 )
 {
+    // No channel is further away than this.
+    window = std::min(window, num_channels);
 #pragma omp parallel
 
     {
-- 
2.43.0


From a1ee7015bc27c9e631c9ebca9962b07b820a5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 47/66] fix: data race on the status of w-stacked gridding when
 threads fail

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 74 ++++++++++++-------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index ae1ad0f..7138b34 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -73,6 +73,15 @@ int effective_size(int subgrid_size, int support, double subgrid_frac)
 }
 
 
+// Pass on an error that was found by a thread.
+void merge_status(sdp_Error thread_status, sdp_Error* status)
+{
+    if (!thread_status) return;
+    #pragma omp critical(merge_status)
+    *status = thread_status;
+}
+
+
 // Count visibilities in each sub-grid, create and return a list of tasks.
 vector<sdp_SubgridTask> count_visibilities(
         const sdp_Mem* uvw,
@@ -105,12 +114,14 @@ vector<sdp_SubgridTask> count_visibilities(
     const int num_subgrids_v = int(1 + max_iv - min_iv);
     vector<sdp_SubgridTask> tasks(num_subgrids_u * num_subgrids_v);
     sdp_Mutex* mutex = (verbosity > 1) ? sdp_mutex_create() : 0;
+    const sdp_Error first_error = *status;
     #pragma omp parallel for num_threads(num_threads) collapse(2)
     for (int64_t iu = min_iu; iu <= max_iu; ++iu)
     {
         for (int64_t iv = min_iv; iv <= max_iv; ++iv)
         {
             int tid = SDP_GET_THREAD_NUM;
+            sdp_Error status_i = first_error;
 
             // Select visibilities in sub-grid.
             int64_t num_vis = 0;
@@ -120,11 +131,12 @@ vector<sdp_SubgridTask> count_visibilities(
             const double max_v = (iv + 1) * eff_sg_dist - eff_sg_dist / 2;
             sdp_gridder_clamp_channels_uv(uvw, freq0_hz, dfreq_hz,
                     start_ch_w, end_ch_w, min_u, max_u, min_v, max_v,
-                    start_ch_uv[tid], end_ch_uv[tid], -1, -1, status
+                    start_ch_uv[tid], end_ch_uv[tid], -1, -1, &status_i
             );
             sdp_gridder_sum_diff(end_ch_uv[tid], start_ch_uv[tid],
-                    &num_vis, -1, -1, status
+                    &num_vis, -1, -1, &status_i
             );
+            merge_status(status_i, status);
             int64_t subgrid = (iu - min_iu) * num_subgrids_v + iv - min_iv;
             tasks[subgrid] = sdp_SubgridTask(
                     iu, iv, num_vis, num_rows, num_vis_per_chunk
@@ -403,21 +415,24 @@ void sdp_grid_wstack_wtower_degrid_all(
     const int image_size = (int) sdp_mem_shape_dim(image, 0);
     const int64_t grid_shape[] = {image_size, image_size};
     const int64_t subgrid_shape[] = {subgrid_size, subgrid_size};
+    const sdp_Error first_error = *status;
     #pragma omp parallel for num_threads(num_threads)
     for (int i = 0; i < num_threads; ++i)
     {
+        sdp_Error status_i = first_error;
         kernel[i] = sdp_gridder_wtower_uvw_create(
                 image_size, subgrid_size, theta, w_step, shear_u, shear_v,
-                support, oversampling, w_support, w_oversampling, status
+                support, oversampling, w_support, w_oversampling, &status_i
         );
         subgrid[i] = sdp_mem_create(
-                sdp_mem_type(vis), loc, 2, subgrid_shape, status
+                sdp_mem_type(vis), loc, 2, subgrid_shape, &status_i
         );
         ifft_subgrid[i] = sdp_fft_create(
-                subgrid[i], subgrid[i], 2, false, status
+                subgrid[i], subgrid[i], 2, false, &status_i
         );
-        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
-        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
+        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, &status_i);
+        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, &status_i);
+        merge_status(status_i, status);
     }
 
     // Determine effective size of sub-grids and w-tower height
@@ -504,11 +519,13 @@ void sdp_grid_wstack_wtower_degrid_all(
         // Start a parallel region to process all tasks.
         sdp_Mutex* mutex = sdp_mutex_create();
         int64_t vis_count_check = 0;
+        const sdp_Error status_loop = *status;
         #pragma omp parallel num_threads(num_threads)
         {
+            sdp_Error status_t = status_loop;
             for (;;)
             {
-                if (*status) break;
+                if (status_t) break;
                 sdp_TimerNode* node = SDP_TMR_ROOT;
                 int tid = SDP_GET_THREAD_NUM;
 
@@ -529,10 +546,10 @@ void sdp_grid_wstack_wtower_degrid_all(
                 sdp_gridder_clamp_channels_uv(uvw, freq0_hz, dfreq_hz,
                         start_ch_w, end_ch_w, min_u, max_u, min_v, max_v,
                         start_ch_uv[tid], end_ch_uv[tid],
-                        start_row, end_row, status
+                        start_row, end_row, &status_t
                 );
                 sdp_gridder_sum_diff(end_ch_uv[tid], start_ch_uv[tid],
-                        &num_vis, start_row, end_row, status
+                        &num_vis, start_row, end_row, &status_t
                 );
                 if (num_vis == 0) continue;
                 #pragma omp atomic
@@ -541,9 +558,9 @@ void sdp_grid_wstack_wtower_degrid_all(
                 // Prepare sub-grid (cut-out, and inverse-FFT).
                 sdp_gridder_subgrid_cut_out(
                         grid, iu * eff_sg_size, iv * eff_sg_size,
-                        subgrid[tid], status
+                        subgrid[tid], &status_t
                 );
-                sdp_fft_exec_shift(ifft_subgrid[tid], subgrid[tid], 1, status);
+                sdp_fft_exec_shift(ifft_subgrid[tid], subgrid[tid], 1, &status_t);
 
                 // Degrid visibilities from sub-grid.
                 node = sdp_timers_push(
@@ -552,10 +569,11 @@ void sdp_grid_wstack_wtower_degrid_all(
                 sdp_gridder_wtower_uvw_degrid(kernel[tid], subgrid[tid],
                         iu * eff_sg_size, iv * eff_sg_size, iw * w_tower_height,
                         freq0_hz, dfreq_hz, uvw, start_ch_uv[tid],
-                        end_ch_uv[tid], vis, start_row, end_row, status
+                        end_ch_uv[tid], vis, start_row, end_row, &status_t
                 );
                 node = sdp_timers_pop(SDP_TMR_HANDLE, tid, node);
             }
+            merge_status(status_t, status);
         }
         sdp_mutex_free(mutex);
         if (!*status && vis_count_check != num_vis)
@@ -670,21 +688,24 @@ void sdp_grid_wstack_wtower_grid_all(
     const int image_size = (int) sdp_mem_shape_dim(image, 0);
     const int64_t grid_shape[] = {image_size, image_size};
     const int64_t subgrid_shape[] = {subgrid_size, subgrid_size};
+    const sdp_Error first_error = *status;
     #pragma omp parallel for num_threads(num_threads)
     for (int i = 0; i < num_threads; ++i)
     {
+        sdp_Error status_i = first_error;
         kernel[i] = sdp_gridder_wtower_uvw_create(
                 image_size, subgrid_size, theta, w_step, shear_u, shear_v,
-                support, oversampling, w_support, w_oversampling, status
+                support, oversampling, w_support, w_oversampling, &status_i
         );
         subgrid[i] = sdp_mem_create(
-                sdp_mem_type(vis), loc, 2, subgrid_shape, status
+                sdp_mem_type(vis), loc, 2, subgrid_shape, &status_i
         );
         fft_subgrid[i] = sdp_fft_create(
-                subgrid[i], subgrid[i], 2, true, status
+                subgrid[i], subgrid[i], 2, true, &status_i
         );
-        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
-        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, status);
+        start_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, &status_i);
+        end_ch_uv[i] = sdp_mem_create(SDP_MEM_INT, loc, 1, &num_rows, &status_i);
+        merge_status(status_i, status);
     }
 
     // Determine effective size of sub-grids and w-tower height
@@ -764,11 +785,13 @@ void sdp_grid_wstack_wtower_grid_all(
         // Start a parallel region to process all tasks.
         sdp_Mutex* mutex = sdp_mutex_create();
         int64_t vis_count_check = 0;
+        const sdp_Error status_loop = *status;
         #pragma omp parallel num_threads(num_threads)
         {
+            sdp_Error status_t = status_loop;
             for (;;)
             {
-                if (*status) break;
+                if (status_t) break;
                 sdp_TimerNode* node = SDP_TMR_ROOT;
                 int tid = SDP_GET_THREAD_NUM;
 
@@ -789,35 +812,36 @@ void sdp_grid_wstack_wtower_grid_all(
                 sdp_gridder_clamp_channels_uv(uvw, freq0_hz, dfreq_hz,
                         start_ch_w, end_ch_w, min_u, max_u, min_v, max_v,
                         start_ch_uv[tid], end_ch_uv[tid],
-                        start_row, end_row, status
+                        start_row, end_row, &status_t
                 );
                 sdp_gridder_sum_diff(end_ch_uv[tid], start_ch_uv[tid],
-                        &num_vis, start_row, end_row, status
+                        &num_vis, start_row, end_row, &status_t
                 );
                 if (num_vis == 0) continue;
                 #pragma omp atomic
                 vis_count_check += num_vis;
 
                 // Grid onto sub-grid.
-                sdp_mem_set_value(subgrid[tid], 0, status);
+                sdp_mem_set_value(subgrid[tid], 0, &status_t);
                 node = sdp_timers_push(
                         SDP_TMR_HANDLE, "Process sub-grid stack", tid, node
                 );
                 sdp_gridder_wtower_uvw_grid(kernel[tid], vis, uvw,
                         start_ch_uv[tid], end_ch_uv[tid], freq0_hz, dfreq_hz,
                         subgrid[tid], iu * eff_sg_size, iv * eff_sg_size,
-                        iw * w_tower_height, start_row, end_row, status
+                        iw * w_tower_height, start_row, end_row, &status_t
                 );
                 node = sdp_timers_pop(SDP_TMR_HANDLE, tid, node);
 
                 // FFT sub-grid, and add to grid.
-                sdp_fft_exec_shift(fft_subgrid[tid], subgrid[tid], 0, status);
+                sdp_fft_exec_shift(fft_subgrid[tid], subgrid[tid], 0, &status_t);
                 #pragma omp critical(subgrid_add)
                 sdp_gridder_subgrid_add(
                         grid, -iu * eff_sg_size, -iv * eff_sg_size,
-                        subgrid[tid], sg_factor, status
+                        subgrid[tid], sg_factor, &status_t
                 );
             }
+            merge_status(status_t, status);
         }
         sdp_mutex_free(mutex);
         if (!*status && vis_count_check != num_vis)
-- 
2.43.0


From 6db9d53d654cc8a4b9664b3cb3d7f908ff88d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 48/66] fix: library functions used for the first time by
 several Python threads

The list of argument types shared between threads was extended by each of
them, so the function could be left expecting too many arguments (or be
called without its types) for good.
---
 src/ska_sdp_func/utility/lib.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ska_sdp_func/utility/lib.py b/src/ska_sdp_func/utility/lib.py
index 5f1bd86..ce5271a 100644
--- a/src/ska_sdp_func/utility/lib.py
+++ b/src/ska_sdp_func/utility/lib.py
@@ -63,6 +63,7 @@ class Lib(metaclass=LibMeta):
     search_dirs = [".", package_root, "/usr/local/lib"]
     lib = None
     mutex = threading.Lock()
+    wrap_mutex = threading.Lock()
 
     # Used to delay the wrapping of a C function until the first
     # time it is called.
@@ -153,12 +154,18 @@ class Lib(metaclass=LibMeta):
             )
             raise KeyError(msg) from err
 
-        func.restype = restype
-        func.argtypes = argtypes
-        if check_errcode:
-            func.argtypes.append(ERROR_CODE_ARGTYPE)
-            func = error_checking(func)
-        setattr(Lib, func_name, func)
+        # The function may be requested for the first time by several threads.
+        # Note that the list of argument types is shared between them.
+        with Lib.wrap_mutex:
+            if func_name in vars(Lib):
+                return
+            func.restype = restype
+            if check_errcode:
+                func.argtypes = argtypes + [ERROR_CODE_ARGTYPE]
+                func = error_checking(func)
+            else:
+                func.argtypes = argtypes
+            setattr(Lib, func_name, func)
 
     @staticmethod
     def _get_func(func_name: str) -> Callable:
-- 
2.43.0


From 30efbe20beaa1dfce5b7866845a86d8ea10afaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 49/66] fix: copies of a Python SkyCoord lost the epoch

---
 src/ska_sdp_func/utility/sky_coord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska_sdp_func/utility/sky_coord.py b/src/ska_sdp_func/utility/sky_coord.py
index 0b631c1..2e83e27 100644
--- a/src/ska_sdp_func/utility/sky_coord.py
+++ b/src/ska_sdp_func/utility/sky_coord.py
@@ -68,6 +68,8 @@ class SkyCoord(StructWrapper):
         super().__init__(
             Lib.sdp_sky_coord_create, create_args, Lib.sdp_sky_coord_free
         )
+        if len(args) == 1 and isinstance(args[0], SkyCoord):
+            self.set_epoch(args[0].epoch())
 
     def epoch(self) -> float:
         """Returns the value of the coordinate epoch"""
-- 
2.43.0


From 67c97cd691263fe1401ddffa0e5f9466f7b52286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 50/66] fix: Swiftly methods raised TypeError when called with
 keywords

The call had already been made, and its results stored, by then.
---
 src/ska_sdp_func/fourier_transforms/swiftly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska_sdp_func/fourier_transforms/swiftly.py b/src/ska_sdp_func/fourier_transforms/swiftly.py
index ca6c495..393af26 100644
--- a/src/ska_sdp_func/fourier_transforms/swiftly.py
+++ b/src/ska_sdp_func/fourier_transforms/swiftly.py
@@ -103,7 +103,7 @@ def auto_wrap_method(c_fn_name, add_handle=True, add_error_status=True):
 
             # Finally call original function, in case there's any
             # additional action to take.
-            return orig_fn(*args, **kwargs)
+            return orig_fn(*bound.args, **bound.kwargs)
 
         return wrapped_fn
 
-- 
2.43.0


From 01710cb903d7b9dedc894e1845810ba34d56ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 51/66] fix: get_uv_range ignored the v coordinates

---
 src/ska_sdp_func/visibility/weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska_sdp_func/visibility/weighting.py b/src/ska_sdp_func/visibility/weighting.py
index 46662eb..fa29ccd 100644
--- a/src/ska_sdp_func/visibility/weighting.py
+++ b/src/ska_sdp_func/visibility/weighting.py
@@ -54,7 +54,7 @@ def get_uv_range(uvw, freq_hz):
     :returns max_abs_uv: Maximum absolute value of UV coordinates
                          in wavelength units, real-valued
     """
-    max_abs_uv = numpy.amax(numpy.abs(uvw[:, :, 0:1]))
+    max_abs_uv = numpy.amax(numpy.abs(uvw[:, :, 0:2]))
     max_abs_uv *= freq_hz[-1] / 299792458.0
 
     return max_abs_uv
-- 
2.43.0


From b4217d885dc0d0d12ee554b952828d650936d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 52/66] fix: windows with a bandwidth of 0 depended on
 uninitialised memory

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 3a63b03..8324f4d 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -642,7 +642,7 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     pswf_segv(&plan->m, &n, &plan->c, &kd, &cv, eg);
 
     // Calculate expansion coefficients
-    double df[200];
+    double df[200] = {0.0};
     pswf_sdmn(&plan->m, &n, &plan->c, &cv, &kd, df);
     pswf_sckb(plan->m, n, plan->c, df, plan->coeff_p);
     return plan;
-- 
2.43.0


From bfdacc5b90630122d464f8a846fa130b74388c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 53/66] fix: arrays whose elements are not a whole number of
 elements apart were misread

---
 src/ska-sdp-func/utility/sdp_mem_view.h | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem_view.h b/src/ska-sdp-func/utility/sdp_mem_view.h
index 1142c0b..ec14c8b 100644
--- a/src/ska-sdp-func/utility/sdp_mem_view.h
+++ b/src/ska-sdp-func/utility/sdp_mem_view.h
@@ -314,6 +314,34 @@ inline sdp_MemType sdp_mem_lift_type<const std::complex<double> >()
  */
 
 
+// Views can only address elements that are a whole number of elements apart.
+inline void sdp_mem_check_view_strides_at(
+        const sdp_Mem* mem,
+        sdp_Error* status,
+        const char* func,
+        const char* expr,
+        const char* file,
+        int line
+)
+{
+    if (*status) return;
+    const int64_t element_size = sdp_mem_type_size(sdp_mem_type(mem));
+    for (int32_t dim = 0; dim < sdp_mem_num_dims(mem); dim++)
+    {
+        if (sdp_mem_shape_dim(mem, dim) > 1 &&
+                sdp_mem_stride_bytes_dim(mem, dim) % element_size != 0)
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            sdp_log_message(SDP_LOG_LEVEL_ERROR, stderr, func, file, line,
+                    "Stride of '%s' in dimension %d is not a multiple of the "
+                    "element size", expr, (int) dim
+            );
+            return;
+        }
+    }
+}
+
+
 /**
  * @brief Attempts to generate view of memory object
  *
@@ -322,6 +350,7 @@ inline sdp_MemType sdp_mem_lift_type<const std::complex<double> >()
  *  * has the expected number of dimension
  *  * is located in the right memory space
  *  * is writeable
+ *  * has elements that are a whole number of elements apart
  *
  * ``status`` will be set if a check fails. Use
  * #sdp_mem_check_and_view macro to automatically fill ``func``,
@@ -357,6 +386,7 @@ void sdp_mem_check_and_view_at(
             func, expr, file, line
     );
     sdp_mem_check_writeable_at(mem, status, func, expr, file, line);
+    sdp_mem_check_view_strides_at(mem, status, func, expr, file, line);
 
     // Set pointer, shape & strides
     view->ptr = static_cast<num_t*>(sdp_mem_data(mem));
@@ -376,6 +406,7 @@ void sdp_mem_check_and_view_at(
  *  * has the expected type
  *  * has the expected number of dimension
  *  * is located in the right memory space
+ *  * has elements that are a whole number of elements apart
  *
  * ``status`` will be set if a check fails. Use
  * #sdp_mem_check_and_view macro to automatically fill ``func``,
@@ -410,6 +441,7 @@ void sdp_mem_check_and_view_at(
     sdp_mem_check_location_at(mem, loc, status,
             func, expr, file, line
     );
+    sdp_mem_check_view_strides_at(mem, status, func, expr, file, line);
 
     // Set pointer, shape & strides
     view->ptr = static_cast<const num_t*>(sdp_mem_data_const(mem));
-- 
2.43.0


From 64692ac0aa95d908fd4b3b2b2e69261cd00dc433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:04 +0000
Subject: [PATCH 54/66] fix: sdp_mem_convert_precision writes to a null pointer
 if it has no output array

If the source array is not on the CPU and cannot be copied, or the output array
cannot be allocated, the status is set but the conversion went on.
---
 src/ska-sdp-func/utility/sdp_mem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 49f9ed3..4c817b7 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -506,6 +506,12 @@ sdp_Mem* sdp_mem_convert_precision(
     sdp_Mem* output = sdp_mem_create(
             output_type, SDP_MEM_CPU, src->num_dims, src->shape, status
     );
+    if (*status)
+    {
+        sdp_mem_free(src_temp);
+        sdp_mem_free(output);
+        return 0;
+    }
     const int64_t num_elements = sdp_mem_num_elements(src);
     if (input_type == SDP_MEM_COMPLEX_DOUBLE &&
             output_type == SDP_MEM_COMPLEX_FLOAT)
-- 
2.43.0


From 3f1976ed04894ddd4e3f2f364f2e13b5f0f2fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 55/66] fix: report failed allocations in sdp_fft_convolution

It wrote to a null pointer if memory for a work array could not be had.
---
 .../numeric_functions/sdp_fft_convolution.cpp  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 36fc59f..627730e 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -156,6 +156,11 @@ static void sdp_fft_convolution_cpu(
     );
     complex<T>* in1_pad_ptr = (complex<T>*)sdp_mem_data(in1_pad_mem);
     sdp_mem_clear_contents(in1_pad_mem, status);
+    if (*status)
+    {
+        sdp_mem_free(in1_pad_mem);
+        return;
+    }
 
     // calculate the number of extra columns and rows need to reach padded length
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
@@ -174,6 +179,12 @@ static void sdp_fft_convolution_cpu(
     );
     complex<T>* in2_pad_ptr = (complex<T>*)sdp_mem_data(in2_pad_mem);
     sdp_mem_clear_contents(in2_pad_mem, status);
+    if (*status)
+    {
+        sdp_mem_free(in1_pad_mem);
+        sdp_mem_free(in2_pad_mem);
+        return;
+    }
 
     // calculate the number of extra columns and rows need to reach padded length
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
@@ -212,6 +223,13 @@ static void sdp_fft_convolution_cpu(
     );
     complex<T>* multiply_ptr = (complex<T>*)sdp_mem_data(multiply_mem);
     sdp_mem_clear_contents(multiply_mem, status);
+    if (*status)
+    {
+        sdp_mem_free(in1_pad_mem);
+        sdp_mem_free(in2_pad_mem);
+        sdp_mem_free(multiply_mem);
+        return;
+    }
 
     // multiply FFTs together
     for (int i = 0; i < pad_size; i++)
-- 
2.43.0


From 05a988e0caca23bbbcf1e20f1f3934099248fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 56/66] fix: report failed allocations in sdp_pswf_create

It wrote to a null pointer if memory for the coefficients could not be had.
---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8324f4d..96c844b 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -631,6 +631,11 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     plan->coeff = sdp_mem_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, coeff_shape, &status
     );
+    if (status)
+    {
+        sdp_pswf_free(plan);
+        return 0;
+    }
     plan->coeff_p = (double*) sdp_mem_data(plan->coeff);
     plan->m = m;
     plan->c = c;
-- 
2.43.0


From fae42c2f22bdfa5a2e57d3c9a7e34a5749af9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 57/66] fix: release handles after failed allocations in
 SwiFTly

The handle of the array that could not be allocated was not released.
---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2539b36..d41dafe 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -81,7 +81,7 @@ sdp_SwiFTly* sdp_swiftly_create(
             &yN_size,
             status
     );
-    if (*status) return NULL;
+    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
     sdp_generate_pswf(0, W * (M_PI / 2), Fb_mem, status);
     if (*status) { sdp_mem_free(Fb_mem); return NULL; }
 
@@ -93,7 +93,12 @@ sdp_SwiFTly* sdp_swiftly_create(
             &xM_yN_size,
             status
     );
-    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
+    if (*status)
+    {
+        sdp_mem_free(Fb_mem);
+        sdp_mem_free(Fn_mem);
+        return NULL;
+    }
 
     // Generate Fn
     const double* pswf = static_cast<double*>(sdp_mem_data(Fb_mem));
@@ -520,7 +525,7 @@ void sdp_swiftly_finish_subgrid_inplace(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
+    if (*status) { sdp_mem_free(tmp_mem); return; }
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
     assert(!*status);
@@ -587,7 +592,7 @@ void sdp_swiftly_finish_subgrid(
     sdp_Mem* buf_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg_img.shape, status
     );
-    if (*status) return;
+    if (*status) { sdp_mem_free(buf_mem); return; }
     sdp_MemViewCpu<std::complex<double>, 2> buf;
     sdp_mem_check_and_view(buf_mem, &buf, status);
     assert(!*status);
@@ -693,7 +698,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
+    if (*status) { sdp_mem_free(tmp_mem); return; }
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
     assert(!*status);
-- 
2.43.0


From 57abb253fd1a3c316e944c0114831f59e9f43c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 58/66] fix: report failed allocations in
 sdp_gridder_uvw_es_fft_create_plan

It wrote to a null pointer if memory for a work array could not be had.
---
 .../grid_data/sdp_gridder_uvw_es_fft.cpp            | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
index 689d27f..139e7a7 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.cpp
@@ -445,6 +445,19 @@ sdp_GridderUvwEsFft* sdp_gridder_uvw_es_fft_create_plan(
             sdp_mem_create(mem_type, SDP_MEM_CPU, 1, qsb, status);
     sdp_Mem* m_conv_corr_kernel =
             sdp_mem_create(mem_type, SDP_MEM_CPU, 1, len, status);
+    if (*status)
+    {
+        free(quadrature_kernel);
+        free(quadrature_nodes);
+        free(quadrature_weights);
+        free(conv_corr_kernel);
+        sdp_mem_free(m_quadrature_kernel);
+        sdp_mem_free(m_quadrature_nodes);
+        sdp_mem_free(m_quadrature_weights);
+        sdp_mem_free(m_conv_corr_kernel);
+        sdp_gridder_uvw_es_fft_free_plan(plan);
+        return NULL;
+    }
 
     if (dbl_vis)
     {
-- 
2.43.0


From 5e282d4b1d27cedb8e467a429932ae70adff90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 59/66] fix: report failed allocations in sdp_hogbom_clean

It wrote to a null pointer if memory for a work array could not be had.
---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index 2de1d82..8aae17a 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -177,6 +177,12 @@ static void sdp_hogbom_clean_cpu(
 
     // create CLEAN Beam
     sdp_mem_clear_contents(cbeam_mem, status);
+    if (*status)
+    {
+        sdp_mem_free(cbeam_mem);
+        sdp_mem_free(clean_comp_complex_mem);
+        return;
+    }
     sdp_create_cbeam<T>(cbeam_details, cbeam_details[3], cbeam_ptr);
 
     // CLEAN loop executes while the stop conditions (threshold and cycle limit) are not met
@@ -255,6 +261,13 @@ static void sdp_hogbom_clean_cpu(
             convolution_result_mem,
             status
     );
+    if (*status)
+    {
+        sdp_mem_free(cbeam_mem);
+        sdp_mem_free(clean_comp_complex_mem);
+        sdp_mem_free(convolution_result_mem);
+        return;
+    }
 
     // complex result to real for the output
     sdp_create_copy_real<T>(convolution_result_ptr, dirty_img_size, skymodel);
-- 
2.43.0


From 013a4bc8a4a1fe9499315b6edd9164f14acffb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:23 +0000
Subject: [PATCH 60/66] fix: report failed allocations in sdp_ms_clean_cornwell

It wrote to a null pointer if memory for a work array could not be had.
---
 .../clean/sdp_ms_clean_cornwell.cpp           | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index b1dc50b..3d6a2ab 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -389,6 +389,21 @@ static void ms_clean_cornwell(
     int* y_per_scale_ptr = (int*)sdp_mem_data(y_per_scale_mem);
     sdp_mem_clear_contents(y_per_scale_mem, status);
 
+    // work arrays to release if something fails
+    sdp_Mem* const work_mem[] = {
+        psf_complex_mem, clean_comp_complex_mem, residual_complex_mem,
+        cbeam_mem, cur_scaled_residual_mem, scaled_residuals_mem,
+        scaled_psf_mem, cur_scaled_psf_mem, cur_scaled_psf_pre_mem,
+        scale_kern_list_mem, cur_1_scale_kern_mem, cur_2_scale_kern_mem,
+        coupling_matrix_mem, peak_per_scale_mem, index_per_scale_mem,
+        x_per_scale_mem, y_per_scale_mem
+    };
+    if (*status)
+    {
+        for (sdp_Mem* mem : work_mem) sdp_mem_ref_dec(mem);
+        return;
+    }
+
     // Convolution code only works with complex input, so make residual and psf complex
     sdp_create_copy_complex<T>(residual_ptr,
             dirty_img_size,
@@ -515,6 +530,12 @@ static void ms_clean_cornwell(
         }
     }
 
+    if (*status)
+    {
+        for (sdp_Mem* mem : work_mem) sdp_mem_ref_dec(mem);
+        return;
+    }
+
     // evaluate the coupling matrix
     SDP_LOG_DEBUG("Evaluate coupling matrix");
     double max_scaled_psf = 0;
@@ -717,6 +738,12 @@ static void ms_clean_cornwell(
             convolution_result_mem,
             status
     );
+    if (*status)
+    {
+        for (sdp_Mem* mem : work_mem) sdp_mem_ref_dec(mem);
+        sdp_mem_ref_dec(convolution_result_mem);
+        return;
+    }
 
     // complex result to real for the output
     sdp_create_copy_real(convolution_result_ptr, dirty_img_size, skymodel_ptr);
-- 
2.43.0


From 362ec7ff06c00573c9e26d387dfa4b149e6e69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:19 +0000
Subject: [PATCH 61/66] fix: overflow in sdp_gridder_rms_diff for images of
 more than 2^31 pixels

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 61572a6..6734a3c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -563,7 +563,7 @@ double rms_diff(const sdp_Mem* a, const sdp_Mem* b, sdp_Error* status)
     double sum_sq_diff = 0.0;
     const int num_x = (int) a_.shape[0];
     const int num_y = (int) a_.shape[1];
-    const int size = num_x * num_y;
+    const double size = (double) num_x * (double) num_y;
     #pragma omp parallel for reduction(+:sum_sq_diff) collapse(2)
     for (int i = 0; i < num_x; ++i)
     {
-- 
2.43.0


From e025cc5b44ba2b1191f22e8916431628a1d84fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:54 +0000
Subject: [PATCH 62/66] fix: index overflow in station beams with large tables
 and offsets

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 86f7aad..20ad795 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -54,19 +54,19 @@ void sdp_station_free(sdp_Station* model)
 template<typename FP, int NUM_POL>
 void sdp_station_beam_dft(
         const FP wavenumber,
-        const int num_in,
+        const int64_t num_in,
         const complex<FP>* const __restrict__ weights_in,
         const FP* const __restrict__ x_in,
         const FP* const __restrict__ y_in,
         const FP* const __restrict__ z_in,
-        const int idx_offset_out,
-        const int num_out,
+        const int64_t idx_offset_out,
+        const int64_t num_out,
         const FP* const __restrict__ x_out,
         const FP* const __restrict__ y_out,
         const FP* const __restrict__ z_out,
         const int* const __restrict__ data_idx,
         const complex<FP>* const __restrict__ data,
-        const int idx_offset_output,
+        const int64_t idx_offset_output,
         complex<FP>* __restrict__ output,
         const FP norm_factor,
         const int eval_x,
@@ -74,7 +74,7 @@ void sdp_station_beam_dft(
 )
 {
     #pragma omp parallel for
-    for (int i_out = 0; i_out < num_out; i_out++)
+    for (int64_t i_out = 0; i_out < num_out; i_out++)
     {
         // Should be allowed to be of length NUM_POL instead of 4,
         // as it's a template parameter and therefore known at compile time,
@@ -90,12 +90,12 @@ void sdp_station_beam_dft(
                     wavenumber * z_out[i_out + idx_offset_out] : (FP) 0;
         if (data)
         {
-            for (int i = 0; i < num_in; ++i)
+            for (int64_t i = 0; i < num_in; ++i)
             {
                 const double phase = xo * x_in[i] + yo * y_in[i] + zo * z_in[i];
                 const complex<FP> weighted_phasor =
                         complex<FP>(cos(phase), sin(phase)) * weights_in[i];
-                const int i_in = NUM_POL * (
+                const int64_t i_in = NUM_POL * (
                     (data_idx ? data_idx[i] : i) * num_out + i_out
                 );
                 if (NUM_POL == 1)
@@ -119,7 +119,7 @@ void sdp_station_beam_dft(
         }
         else
         {
-            for (int i = 0; i < num_in; ++i)
+            for (int64_t i = 0; i < num_in; ++i)
             {
                 const double phase = xo * x_in[i] + yo * y_in[i] + zo * z_in[i];
                 const complex<FP> weighted_phasor =
@@ -143,7 +143,8 @@ void sdp_station_beam_dft(
                 }
             }
         }
-        const int i_out_offset_scaled = NUM_POL * (i_out + idx_offset_output);
+        const int64_t i_out_offset_scaled =
+                NUM_POL * (i_out + idx_offset_output);
         if (NUM_POL == 1)
         {
             output[i_out_offset_scaled] = out[0] * norm_factor;
-- 
2.43.0


From 83baf11c4d3220ad54ddfafa4e61840f96358eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:54 +0000
Subject: [PATCH 63/66] fix: index overflow in element beams with large offsets
 and strides

---
 .../station_beam/sdp_element_dipole.cpp            | 14 +++++++-------
 .../sdp_element_spherical_wave_harp.cpp            |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index 36ef75a..9e0fdfc 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -47,9 +47,9 @@ static void sdp_dipole_pattern(
         const FP* phi_rad,
         const FP kL,
         const FP cos_kL,
-        const int stride,
-        const int e_theta_offset,
-        const int e_phi_offset,
+        const int64_t stride,
+        const int64_t e_theta_offset,
+        const int64_t e_phi_offset,
         complex<FP>* e_theta,
         complex<FP>* e_phi
 )
@@ -72,8 +72,8 @@ static void sdp_dipole_pattern_scalar(
         const FP* phi_rad,
         const FP kL,
         const FP cos_kL,
-        const int stride,
-        const int offset,
+        const int64_t stride,
+        const int64_t offset,
         complex<FP>* pattern
 )
 {
@@ -151,8 +151,8 @@ void sdp_element_beam_dipole(
         return;
     }
     if (num_points == 0) return;
-    const int E_theta_offset = index_offset_element_beam;
-    const int E_phi_offset = index_offset_element_beam + 1;
+    const int64_t E_theta_offset = index_offset_element_beam;
+    const int64_t E_phi_offset = E_theta_offset + 1;
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index b4813ac..c815d62 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -116,7 +116,7 @@ void sdp_spherical_wave_pattern_harp (
             }
         }
         // For some reason the theta/phi components must be reversed.
-        const int i_out = 4 * (i + offset);
+        const int64_t i_out = 4 * ((int64_t) i + offset);
         pattern[i_out + 0] = x_phi;
         pattern[i_out + 1] = x_theta;
         pattern[i_out + 2] = y_phi;
-- 
2.43.0


From b5febd17a4bcf660bc3015b5ca0a67b2d9380131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:54 +0000
Subject: [PATCH 64/66] fix: index overflow in flagger with more than 2^31
 samples

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 26 +++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 85eeaa8..54438d9 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -175,9 +175,11 @@ static void flagger_dynamic_threshold(
                 for (int t = 0; t < num_timesamples; t++)
                 {
                     int situation = 0;
-                    int time_block = num_baselines * num_channels * num_pols;
-                    int baseline_block = num_channels * num_pols;
-                    int baseline_pos = t * time_block + b * baseline_block;
+                    const int64_t baseline_block = (int64_t) num_channels *
+                            num_pols;
+                    const int64_t time_block = num_baselines * baseline_block;
+                    const int64_t baseline_pos = t * time_block +
+                            b * baseline_block;
 
                     int medwindow = std::min(t + 1, window_median_history);
                     double* medarray = new double[medwindow];
@@ -187,7 +189,7 @@ static void flagger_dynamic_threshold(
 
                     for (int s = 0; s < num_samples; s++)
                     {
-                        int pos = baseline_pos + (s * sampling_step) *
+                        int64_t pos = baseline_pos + (s * sampling_step) *
                                 num_pols + p;
                         samples[s] = abs(visibilities[pos]);
                     }
@@ -227,7 +229,7 @@ static void flagger_dynamic_threshold(
 
                     for (int c = 0; c < num_channels; c++)
                     {
-                        int pos = baseline_pos + c * num_pols + p;
+                        int64_t pos = baseline_pos + c * num_pols + p;
                         double vis1 = abs(visibilities[pos]);
                         double zscore_mags = modified_zscore(median,
                                 mediandev,
@@ -266,13 +268,13 @@ static void flagger_dynamic_threshold(
 
                     if (t > 0)
                     {
-                        int baseline_pos_minus_one = (t - 1) * time_block + b *
-                                baseline_block;
+                        const int64_t baseline_pos_minus_one =
+                                baseline_pos - time_block;
                         for (int c = 0; c < num_channels; c++)
                         {
-                            int pos0 = baseline_pos + c * num_pols + p;
-                            int pos1 = (t - 1) * time_block + b *
-                                    baseline_block + c * num_pols + p;
+                            int64_t pos0 = baseline_pos + c * num_pols + p;
+                            int64_t pos1 = baseline_pos_minus_one +
+                                    c * num_pols + p;
                             double vis0 = abs(visibilities[pos0]);
                             double vis1 = abs(visibilities[pos1]);
                             double rate_of_change = abs(vis1 - vis0);
@@ -310,8 +312,8 @@ static void flagger_dynamic_threshold(
 
                         for (int c = 0; c < num_channels; c++)
                         {
-                            int pos = baseline_pos + c * num_pols + p;
-                            int pos_minus_one = baseline_pos_minus_one + c *
+                            int64_t pos = baseline_pos + c * num_pols + p;
+                            int64_t pos_minus_one = baseline_pos_minus_one + c *
                                     num_pols + p;
                             double ts = abs(transit_score[c]);
                             double zscore_vars = modified_zscore(medianvar,
-- 
2.43.0


From da2a4748f6f5f867962e741a1cd0ae8bbf5a040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:17 +0000
Subject: [PATCH 65/66] fix: index overflow in tiled functions with more than
 2^31 coordinates

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 5311c49..ffe9afa 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -121,7 +121,7 @@ static void sdp_tile_count_simple(
     {
         for (int i_baseline = 0; i_baseline < num_baselines; i_baseline++)
         {
-            const int i_uv = INDEX_3D(
+            const int64_t i_uv = INDEX_3D(
                     num_times, num_baselines, 3,
                     i_time, i_baseline, 0
             );
@@ -210,14 +210,14 @@ static void sdp_bucket_sort_simple(
     {
         for (int i_baseline = 0; i_baseline < num_baselines; i_baseline++)
         {
-            const int i_uv = INDEX_3D(
+            const int64_t i_uv = INDEX_3D(
                     num_times, num_baselines, 3,
                     i_time, i_baseline, 0
             );
 
             for (int i_channel = 0; i_channel < num_channels; i_channel++)
             {
-                const int i_vis = INDEX_4D(
+                const int64_t i_vis = INDEX_4D(
                         num_times, num_baselines, num_channels, num_pol,
                         i_time, i_baseline, i_channel, 0
                 );
@@ -297,14 +297,14 @@ static void tiled_indexing(
     {
         for (int i_baseline = 0; i_baseline < num_baselines; i_baseline++)
         {
-            const int i_uv = INDEX_3D(
+            const int64_t i_uv = INDEX_3D(
                     num_times, num_baselines, 3,
                     i_time, i_baseline, 0
             );
 
             for (int i_channel = 0; i_channel < num_channels; i_channel++)
             {
-                const int i_vis = INDEX_4D(
+                const int64_t i_vis = INDEX_4D(
                         num_times, num_baselines, num_channels, num_pol,
                         i_time, i_baseline, i_channel, 0
                 );
-- 
2.43.0


From 93788bb5fec213dc953cceb551db6dbb75ea519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:27 +0000
Subject: [PATCH 66/66] fix: index overflow in point-source prediction with
 more than 2^32 fluxes

---
 src/ska-sdp-func/visibility/sdp_dft.cpp | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_dft.cpp b/src/ska-sdp-func/visibility/sdp_dft.cpp
index f70886c..6f7c498 100644
--- a/src/ska-sdp-func/visibility/sdp_dft.cpp
+++ b/src/ska-sdp-func/visibility/sdp_dft.cpp
@@ -24,11 +24,11 @@ template<
         typename VIS_TYPE
 >
 static void dft_point_v00(
-        const int num_components,
-        const int num_pols,
-        const int num_channels,
-        const int num_baselines,
-        const int num_times,
+        const int64_t num_components,
+        const int64_t num_pols,
+        const int64_t num_channels,
+        const int64_t num_baselines,
+        const int64_t num_times,
         const DIR_TYPE* const __restrict__ source_directions,
         const complex<FLUX_TYPE>* const __restrict__ source_fluxes,
         const UVW_TYPE* const __restrict__ uvw_lambda,
@@ -47,7 +47,7 @@ static void dft_point_v00(
                 vis_local[0] = vis_local[1] = vis_local[2] = vis_local[3] = 0;
 
                 // Load uvw-coordinates.
-                const unsigned int i_uvw = INDEX_4D(
+                const int64_t i_uvw = INDEX_4D(
                         num_times, num_baselines, num_channels, 3,
                         i_time, i_baseline, i_channel, 0
                 );
@@ -59,7 +59,7 @@ static void dft_point_v00(
                 for (int i_component = 0;
                         i_component < num_components; ++i_component)
                 {
-                    const unsigned int i_dir = 3 * i_component;
+                    const int64_t i_dir = 3 * (int64_t) i_component;
                     const DIR_TYPE l = source_directions[i_dir];
                     const DIR_TYPE m = source_directions[i_dir + 1];
                     const DIR_TYPE n = source_directions[i_dir + 2];
@@ -69,7 +69,7 @@ static void dft_point_v00(
                     const complex<VIS_TYPE> phasor(cos_phase, sin_phase);
 
                     // Multiply by flux in each polarisation and accumulate.
-                    const unsigned int i_pol_start = INDEX_3D(
+                    const int64_t i_pol_start = INDEX_3D(
                             num_components, num_channels, num_pols,
                             i_component, i_channel, 0
                     );
@@ -86,7 +86,7 @@ static void dft_point_v00(
                 // Write out local visibility.
                 for (int i_pol = 0; i_pol < num_pols; ++i_pol)
                 {
-                    const unsigned int i_out = INDEX_4D(
+                    const int64_t i_out = INDEX_4D(
                             num_times, num_baselines, num_channels, num_pols,
                             i_time, i_baseline, i_channel, i_pol
                     );
@@ -257,11 +257,11 @@ template<
         typename VIS_TYPE
 >
 static void dft_point_v01(
-        const int num_components,
-        const int num_pols,
-        const int num_channels,
-        const int num_baselines,
-        const int num_times,
+        const int64_t num_components,
+        const int64_t num_pols,
+        const int64_t num_channels,
+        const int64_t num_baselines,
+        const int64_t num_times,
         const DIR_TYPE* const __restrict__ source_directions,
         const complex<FLUX_TYPE>* const __restrict__ source_fluxes,
         const UVW_TYPE* const __restrict__ uvw_metres,
@@ -276,7 +276,7 @@ static void dft_point_v01(
         for (int i_baseline = 0; i_baseline < num_baselines; ++i_baseline)
         {
             // Load uvw-coordinates.
-            const unsigned int i_uvw = INDEX_3D(
+            const int64_t i_uvw = INDEX_3D(
                     num_times, num_baselines, 3,
                     i_time, i_baseline, 0
             );
@@ -298,7 +298,7 @@ static void dft_point_v01(
                 for (int i_component = 0;
                         i_component < num_components; ++i_component)
                 {
-                    const unsigned int i_dir = 3 * i_component;
+                    const int64_t i_dir = 3 * (int64_t) i_component;
                     const DIR_TYPE l = source_directions[i_dir];
                     const DIR_TYPE m = source_directions[i_dir + 1];
                     const DIR_TYPE n = source_directions[i_dir + 2];
@@ -307,7 +307,7 @@ static void dft_point_v01(
                     const complex<VIS_TYPE> phasor(cos(phase), sin(phase));
 
                     // Multiply by flux in each polarisation and accumulate.
-                    const unsigned int i_pol_start = INDEX_3D(
+                    const int64_t i_pol_start = INDEX_3D(
                             num_components, num_channels, num_pols,
                             i_component, i_channel, 0
                     );
@@ -324,7 +324,7 @@ static void dft_point_v01(
                 // Write out local visibility.
                 for (int i_pol = 0; i_pol < num_pols; ++i_pol)
                 {
-                    const unsigned int i_out = INDEX_4D(
+                    const int64_t i_out = INDEX_4D(
                             num_times, num_baselines, num_channels, num_pols,
                             i_time, i_baseline, i_channel, i_pol
                     );
-- 
2.43.0

