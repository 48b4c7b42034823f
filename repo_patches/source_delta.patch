From f406675f7c1cc65790522553c5406f2dbbda5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 001/159] fix: keep operand order of mod when the left operand
 is broadcast

---
 src/kernels/cpu/mod.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..4797677 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -218,11 +218,13 @@ namespace ts {
         }
 
         void Mod::reduce_with_bias_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out, int dim) {
-            this->reduce_with_bias(rhs, lhs, out, dim);
+            // mod is not commutative, so the operands can not be swapped
+            (void)(dim);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
 
         void Mod::reduce_with_scalar_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out) {
-            this->reduce_with_scalar(rhs, lhs, out);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
     }
 }
-- 
2.43.0


From 7e3a9db7cea963c5a08901c35e83dca0a7a9c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 002/159] fix: equal of operands with different ranks reads the
 broadcast shapes

---
 src/backend/base/base_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_equal.cpp b/src/backend/base/base_equal.cpp
index c217a08..efea230 100644
--- a/src/backend/base/base_equal.cpp
+++ b/src/backend/base/base_equal.cpp
@@ -43,8 +43,8 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            lhs = lhs.view(memory_device);
-            rhs = rhs.view(memory_device);
+            lhs = lhs.view(memory_device).reshape(lhs_shape);
+            rhs = rhs.view(memory_device).reshape(rhs_shape);
             auto &out = *stack.push(output[0], memory_device);
 
             if (!do_broadcast) {
-- 
2.43.0


From d345851c422e55a1ad1547c79bc8161414929aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 003/159] fix: deadlock when a pool thread is destroyed just
 before it waits

---
 src/runtime/inside/thread_pool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..627eef9 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,7 +13,11 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
+        {
+            // without the lock the wakeup is lost when the thread is about to wait
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+        }
         task_cond.notify_all();
         core.join();
     }
-- 
2.43.0


From 8b8af73b5273104f96f86b3938819be8050d291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 004/159] fix: softplus of non-float32 tensors used the first
 element for every output

---
 src/kernels/cpu/softplus.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/softplus.cpp b/src/kernels/cpu/softplus.cpp
index 2a4662a..b647f0b 100644
--- a/src/kernels/cpu/softplus.cpp
+++ b/src/kernels/cpu/softplus.cpp
@@ -23,6 +23,7 @@ namespace ts {
                 T val = *input_data;
                 *output_data = std::log(std::exp(val) + 1.);
                 output_data++;
+                input_data++;
             }
         }
 
-- 
2.43.0


From 7b638445f3fd92e4ee2a7fef975b5a420a0d3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 005/159] fix: argmax interpreted every input type as int32

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From cf722511a97a15bcb28dabdd3cab8a71bae09786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 006/159] fix: l2_norm along a dimension of size 1 returned 1
 whatever the input

---
 src/kernels/cpu/l2_norm.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index b546c82..a2a7de7 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -32,13 +32,6 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
-            if (body_num == 1) {
-                T one(1);
-                memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-                       &one, Device(CPU), sizeof(T));
-                return;
-            }
-
             int head_num = 1;
             for (int i = 0; i < m_dim; i++) {
                 head_num *= output_shape[i];
-- 
2.43.0


From 23d029b6104d9d16ea44e69b3bcb3ca0f070e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 007/159] fix: transpose without permute did not swap the last
 two dimensions

---
 src/backend/base/base_transpose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/base/base_transpose.cpp b/src/backend/base/base_transpose.cpp
index 4fc553d..5a824a4 100644
--- a/src/backend/base/base_transpose.cpp
+++ b/src/backend/base/base_transpose.cpp
@@ -61,8 +61,7 @@ namespace ts {
                 permute[i] = int(i);
             }
             if (permute.size() >= 2) {
-                permute[permute.size() - 2] = permute[permute.size() - 1];
-                permute[permute.size() - 1] = permute[permute.size() - 2];
+                std::swap(permute[permute.size() - 2], permute[permute.size() - 1]);
             }
             return std::move(permute);
         }
-- 
2.43.0


From 3d86fc77e6253983cf01f98f633519ee546d2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 008/159] fix: chunk read past the split table when the size
 does not fill every chunk

---
 src/backend/base/base_chunk.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_chunk.cpp b/src/backend/base/base_chunk.cpp
index d733646..ed5c258 100644
--- a/src/backend/base/base_chunk.cpp
+++ b/src/backend/base/base_chunk.cpp
@@ -46,9 +46,9 @@ namespace ts {
 
             auto bins = split_bins(0, dim_size, m_chunks);
 
-            output.resize(m_chunks);
+            output.resize(bins.size());
 
-            for (int i = 0; i < m_chunks; ++i) {
+            for (size_t i = 0; i < bins.size(); ++i) {
                 DTYPE proto_dtype = x.dtype();
                 Shape proto_shape = x.sizes();
                 proto_shape[fixed_dim] = bins[i].second - bins[i].first;
@@ -60,7 +60,7 @@ namespace ts {
 
         int Chunk::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             infer_return_dim(stack, m_chunks, m_dim, output);
-            return m_chunks;
+            return int(output.size());
         }
 
         int Chunk::run(Stack &stack) {
-- 
2.43.0


From ea3b5fba76b9c1b735b3ea5fb315d608638af32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 009/159] fix: pad of a 4-D tensor wrote past the output when
 cropping the first dimension

---
 src/kernels/cpu/pad2d_algorithm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ae646ed..b8db785 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -32,6 +32,8 @@ namespace ts{
             int out_dim1_offset = out_dim2 * out_tile;
             int out_num_offset = out_dim1 * out_dim1_offset;
 
+            num = padding[0][0] < 0 ? num + padding[0][0] : num;
+            num = padding[0][1] < 0 ? num + padding[0][1] : num;
             int dim1 = padding[1][0] < 0 ? input_dim1 + padding[1][0] : input_dim1;
             dim1 = padding[1][1] < 0 ? dim1 + padding[1][1] : dim1;
             int dim2 = padding[2][0] < 0 ? input_dim2 + padding[2][0] : input_dim2;
-- 
2.43.0


From 2ec7e65eaf04f6bd9e9a79e58792b8d67a751f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 010/159] fix: shapes of more than 7 dimensions overran the
 fixed-capacity vector

---
 include/utils/otl.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..284eacb 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,19 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(S(n)) {
+                _check_size(n);
+            }
 
             vector(size_type n, const value_type& val)
                 : m_size(S(n)) {
+                _check_size(n);
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
                     : m_size(S(n)) {
+                _check_size(size_type(n));
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,7 +300,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
+                    if (n >= CAPACITY) {
                         TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
                     }
                     m_buf[n] = *it;
@@ -395,6 +399,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _check_size(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +410,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _check_size(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +422,12 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static void _check_size(size_type n) {
+                if (n > CAPACITY) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,9 +440,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _check_size(this->size() + 1);
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
                 m_buf[i] = val;
                 m_size += 1;
@@ -438,9 +448,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _check_size(this->size() + vec.size());
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
                 std::memcpy(m_buf + i, vec.data(), sizeof(T) * (vec.size()));
                 m_size += S(vec.size());
-- 
2.43.0


From c15ae296200e997be3afef5fe6a4587546a4610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 011/159] fix: range with a negative delta produced too few
 elements

---
 src/kernels/cpu/range.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index b791f4f..d49e652 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -23,10 +23,11 @@ namespace ts {
 
             steps = int((limit - start) / delta);
            
-            if(steps * delta + start  < limit)  {
+            auto last = steps * delta + start;
+            if(delta > 0 ? last < limit : last > limit)  {
                 steps++;
             }
-            return steps;
+            return steps > 0 ? steps : 0;
         }
 
         template<typename T>
-- 
2.43.0


From dc4f0fddb68bc3ec7ab2ba131998081357e2017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 012/159] fix: crop_to kept the axis resolved from the rank of
 the first input

---
 src/kernels/cpu/crop_to.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..0684c13 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -69,7 +69,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Crop axis must in [-"
@@ -98,7 +98,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Stack axis must in [-"
-- 
2.43.0


From b2fa8cf66c0f1942e707261066a1445e14de119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 013/159] fix: gather wrote resolved negative indices into its
 input and read past the shape for negative axes

---
 src/backend/base/base_gather.cpp          | 10 ++++++----
 src/backend/base/base_gather_elements.cpp |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..f51ee06 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -60,19 +60,21 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto& indices_viewed = indices;
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+            auto limit = x.size(positive_axis);
+
+            // cast may share memory with the input, so the indices are fixed in a copy
+            auto indices_viewed = indices.clone();
             for (int i = 0; i < indices_viewed.count(); ++i) {
 
                 indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
-                                                    indices_viewed.data<int32_t>()[i] + x.size(m_axis) :
+                                                    indices_viewed.data<int32_t>()[i] + limit :
                                                     indices_viewed.data<int32_t>()[i];
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..f6985f4 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -48,10 +48,13 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto& indices_viewed = indices;
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+
+            // cast may share memory with the input, so the indices are fixed in a copy
+            auto indices_viewed = indices.clone();
             auto N = indices_viewed.count();
             auto indices_data = indices_viewed.data<int32_t>();
-            auto indices_limit = x.size(m_axis);
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
                 indices_data[i] = v < 0 ? v + indices_limit : v;
@@ -60,8 +63,6 @@ namespace ts {
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
-- 
2.43.0


From d52ba2344c7c0d42401ec2058ab91dec1e9067c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 014/159] fix: gather_elements only handled one index along the
 gathered axis

---
 src/kernels/cpu/gather_elements.cpp | 56 ++++++++++++++++-------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..c2370aa 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -29,27 +29,31 @@ namespace ts {
                                          std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            auto picked = out.size(axis);
+            HypeShape norm_out_shape({number, picked, width});
 
             auto x_data = x.data<T>();
             auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    out_data[out_index] = x_data[x_index];
+                for (int k = 0; k < picked; ++k) {
+                    norm_out_coord[1] = k;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        out_data[out_index] = x_data[x_index];
+                    }
                 }
             }
         }
@@ -91,7 +95,8 @@ namespace ts {
             auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            auto picked = out.size(axis);
+            HypeShape norm_out_shape({number, picked, width});
 
             auto bytes = x.proto().type_bytes();
 
@@ -100,22 +105,25 @@ namespace ts {
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    auto src_ptr = x_data + x_index * bytes;
-                    auto dst_ptr = out_data + out_index * bytes;
-                    memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                for (int k = 0; k < picked; ++k) {
+                    norm_out_coord[1] = k;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        auto src_ptr = x_data + x_index * bytes;
+                        auto dst_ptr = out_data + out_index * bytes;
+                        memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                    }
                 }
             }
         }
-- 
2.43.0


From 86bdfd7a0706921a999f733974adf0c4d7b37025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 015/159] fix: scatter_nd ignored all but the first coordinate
 of each index

---
 src/kernels/cpu/scatter_nd.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/kernels/cpu/scatter_nd.cpp b/src/kernels/cpu/scatter_nd.cpp
index 5dad31a..a63c9a6 100644
--- a/src/kernels/cpu/scatter_nd.cpp
+++ b/src/kernels/cpu/scatter_nd.cpp
@@ -10,12 +10,20 @@ namespace ts {
 
             std::memcpy(out.data(), data.data(), data.count() * bytes);
 
-            auto update_indices = indices.sizes();
+            TS_AUTO_CHECK(indices.dims() > 0);
+            auto depth = indices.sizes().back();
+            TS_AUTO_CHECK(depth > 0 && depth <= int(data.dims()));
 
-            for (int i = 0; i < update_indices[0]; ++i) {
-                int offset = updates.slice(i).count();
-                auto block = offset * bytes;
-                int out_idx = indices.data<int>(i);
+            auto number = indices.count() / depth;
+            if (number == 0) return;
+            auto block = updates.count() / number * bytes;
+
+            for (int i = 0; i < number; ++i) {
+                // each index row addresses a block by its leading `depth` coordinates
+                int out_idx = 0;
+                for (int k = 0; k < depth; ++k) {
+                    out_idx = out_idx * data.size(k) + indices.data<int>(i * depth + k);
+                }
                 std::memcpy(out.data<uint8_t>() + out_idx * block,
                             updates.data<uint8_t>() + i * block, block);
             }
-- 
2.43.0


From b0ae5ffe6034c50eaf070bef08b8affd4f637b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 016/159] fix: slice_v3 wrote before its arrays for negative
 axes

---
 src/backend/base/base_slice_v3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..d1b4ab6 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -389,7 +389,7 @@ namespace ts {
             for (int32_t i = 0; i < slice_size; ++i) {
                 auto start = starts[i];
                 auto end = ends[i];
-                auto axis = axes[i];
+                auto axis = axes[i] < 0 ? axes[i] + dims : axes[i];
                 auto step = steps[i];
 
                 m_begin[axis] = start;
-- 
2.43.0


From fc7ccae2fb39bf8daf3827de812c4c376c1416b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 017/159] fix: slicing backwards to the first element (end ==
 -size) included that element

---
 src/backend/base/base_slice_v3.cpp      | 2 +-
 src/backend/base/base_strided_slice.cpp | 2 +-
 src/runtime/inferer/factory.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index d1b4ab6..3ebc37b 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -47,7 +47,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..72f6d89 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -71,7 +71,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 3d2a286..7664bd6 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2038,7 +2038,7 @@ namespace ts {
                         else if (end < 0) end += x;
                     } else {
                         if (end > x) return 0;     // no elements
-                        else if (end <= -x) end = -1;
+                        else if (end < -x) end = -1;
                         else if (end < 0) end += x;
                     }
                 }
-- 
2.43.0


From 94a385f5e517414f0a29a4d0b9c279646e39c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 018/159] fix: strided_slice of new axes, shrunk negative
 indices and empty ellipses

---
 src/backend/base/base_strided_slice.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 72f6d89..855de25 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -158,6 +158,7 @@ namespace ts {
                     if (new_axis_mask & (1 << i)) --right_count;
                 }
                 auto ellipsis_count = int(x.size()) - left_count - right_count;
+                if (ellipsis_count < 0) return false;
                 in.clear();
                 in.insert(in.end(), x.begin(), x.begin() + left_count);
                 in.insert(in.end(), std::accumulate(x.begin() + left_count, x.begin() + left_count + ellipsis_count, 1, std::multiplies<int>()));
@@ -177,6 +178,18 @@ namespace ts {
                     if (new_axis_mask & (1 << i)) {
                         if (i > in.size()) return false;
                         in.insert(in.begin() + i, 1);
+                        // the new axis is taken as a whole
+                        stride[i] = 1;
+                        begin_mask |= 1 << i;
+                        end_mask |= 1 << i;
+                    } else if ((shrink_axis_mask & (1 << i)) && !(ellipsis_mask & (1 << i))) {
+                        // the shrunk axis is the single element at begin
+                        if (begin_mask & (1 << i)) begin[i] = 0;
+                        begin_mask &= ~(1 << i);
+                        end_mask &= ~(1 << i);
+                        stride[i] = 1;
+                        end[i] = begin[i] + 1;
+                        if (end[i] == 0) end_mask |= 1 << i;
                     }
                 }
             }
@@ -221,7 +234,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (ellipsis_ones && (i == ellipsis_index)) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
-- 
2.43.0


From b6b8e128a7cd972f44e2f359afd9d5bed19c429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 019/159] fix: packed matrix product of non-float32 types
 computed nothing

---
 src/kernels/cpu/math_cpu.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/math_cpu.cpp b/src/kernels/cpu/math_cpu.cpp
index 35bef3b..654cc4d 100644
--- a/src/kernels/cpu/math_cpu.cpp
+++ b/src/kernels/cpu/math_cpu.cpp
@@ -379,7 +379,24 @@ namespace ts {
 
         template<typename T_IN, typename T_OUT>
         inline void kernel_8x8(int M, int K, int N, T_IN alpha, const T_IN *A, const T_IN *B, T_IN beta, T_OUT *C, int ldc) {
-
+            // rows of A and columns of B are packed in groups of 8, the remaining ones follow one by one
+            int m_remain = (M >> 3) << 3;
+            int n_remain = (N >> 3) << 3;
+            for (int m = 0; m < M; ++m) {
+                bool m_packed = m < m_remain;
+                const T_IN *A_at = m_packed ? A + (m >> 3) * 8 * K + (m & 7) : A + m * K;
+                int A_step = m_packed ? 8 : 1;
+                for (int n = 0; n < N; ++n) {
+                    bool n_packed = n < n_remain;
+                    const T_IN *B_at = n_packed ? B + (n >> 3) * 8 * K + (n & 7) : B + n * K;
+                    int B_step = n_packed ? 8 : 1;
+                    T_OUT sum = 0;
+                    for (int k = 0; k < K; ++k) {
+                        sum += T_OUT(A_at[k * A_step] * B_at[k * B_step]);
+                    }
+                    C[m * ldc + n] = sum;
+                }
+            }
         }
 
         template<>
-- 
2.43.0


From 4e4d04f5283118277a2b2e6156e8b18e11ab668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 020/159] fix: compiling gemm without explicit alpha, beta,
 transA or transB failed

---
 src/compiler/option/pack_translator_option.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..8db891e 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -59,10 +59,11 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         auto inputs = node.inputs();
         auto A_node = inputs[0],B_node = inputs[1],C_node = inputs[2];
 
-        float alpha = tensor::to_float(node.bubble().get(name::alpha));
-        float beta = tensor::to_float(node.bubble().get(name::beta));
-        bool transA = tensor::to_bool(node.bubble().get(name::transA));
-        bool transB = tensor::to_bool(node.bubble().get(name::transB));
+        auto &bubble = node.bubble();
+        float alpha = bubble.has(name::alpha) ? tensor::to_float(bubble.get(name::alpha)) : 1.0f;
+        float beta = bubble.has(name::beta) ? tensor::to_float(bubble.get(name::beta)) : 1.0f;
+        bool transA = bubble.has(name::transA) && tensor::to_bool(bubble.get(name::transA));
+        bool transB = bubble.has(name::transB) && tensor::to_bool(bubble.get(name::transB));
 
         //NOTE:Can not translate in this case,inner_product not support now
         if (A_node.bubble().op() != Bubble::Const && transA) {
@@ -113,10 +114,10 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
 
         auto inner_prod_node = bubble::op(name + "_inner_prod", name::layer::inner_prod(), { A_trans_node, B_trans_node });
 
-        auto alpha_node = bubble::data(name + "_alpha", node.bubble().get(name::alpha));
+        auto alpha_node = bubble::data(name + "_alpha", tensor::from<float>(alpha));
         auto alpha_mul_node = bubble::op(name + "_alpha_mul", name::layer::mul(), { alpha_node, inner_prod_node });
 
-        auto beta_node = bubble::data(name + "_beta", node.bubble().get(name::beta));
+        auto beta_node = bubble::data(name + "_beta", tensor::from<float>(beta));
         auto beta_mul_node = bubble::op(name + "_beta_mul", name::layer::mul(), { beta_node, C_node });
 
         if (ts::near(beta, float(0))) {
-- 
2.43.0


From 26656f1b13c2bfb2c0331da94e46ba9d5bc68517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 021/159] fix: gemm with transB lost the transposition when B
 is not const

---
 src/compiler/option/pack_translator_option.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 8db891e..5096c67 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -66,7 +66,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         bool transB = bubble.has(name::transB) && tensor::to_bool(bubble.get(name::transB));
 
         //NOTE:Can not translate in this case,inner_product not support now
-        if (A_node.bubble().op() != Bubble::Const && transA) {
+        if ((A_node.bubble().op() != Bubble::Const && transA) || (B_node.bubble().op() != Bubble::Const && transB)) {
             Node::Link(translated_node, node.inputs());
             return true;
         }
-- 
2.43.0


From d88384308a7d1d0c43308d10a5354e1614a6228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 022/159] fix: gemm with beta 0 dropped the graph input feeding
 C

---
 src/compiler/option/pack_translator_option.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 5096c67..2c624e9 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -71,6 +71,12 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
             return true;
         }
 
+        //NOTE:Can not drop C if it may depend on inputs, the inputs would be lost
+        if (ts::near(beta, float(0)) && C_node.bubble().op() != Bubble::Const) {
+            Node::Link(translated_node, node.inputs());
+            return true;
+        }
+
         //transpose const if trans is true
         auto A_trans_node = A_node;
         auto B_trans_node = B_node;
-- 
2.43.0


From ca2af34a1fa43c54936d206719309e2cef94e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 023/159] fix: non-float32 const kernels failed to compile with
 packing

---
 src/compiler/option/pack_translator_option.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 2c624e9..b05be6c 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -77,6 +77,13 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
             return true;
         }
 
+        //only float32 const supported
+        if ((transA && A_node.bubble().get(name::value).dtype() != FLOAT32) ||
+            (transB && B_node.bubble().get(name::value).dtype() != FLOAT32)) {
+            Node::Link(translated_node, node.inputs());
+            return true;
+        }
+
         //transpose const if trans is true
         auto A_trans_node = A_node;
         auto B_trans_node = B_node;
@@ -164,6 +171,12 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto kernel_shape = kernel_tensor.sizes();
     auto kernel_type = kernel_tensor.dtype();
 
+    //only float32 kernel supported
+    if (kernel_type != FLOAT32) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
+
     //winograd_check
 #ifdef TS_ON_ARM
     ArgParser parser;
-- 
2.43.0


From dd9c3609d8ab3f78fb0a775b04048c1a837fcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 024/159] fix: packing changed the const nodes of the compiled
 module

---
 src/compiler/option/pack_translator_option.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index b05be6c..39f07d6 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -103,6 +103,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            A_trans_node = bubble::bubble(A_node.bubble());
             A_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -122,6 +123,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            B_trans_node = bubble::bubble(B_node.bubble());
             B_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -255,7 +257,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    // packing must not change the original const, it may be shared or compiled again
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From d3f184bc5ddfedc279c89c2e08c1c4845d286e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 025/159] fix: programs whose outputs need no input kept their
 inputs on the stack

---
 src/compiler/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 402f6e1..89680b7 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -358,7 +358,7 @@ namespace ts {
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
             for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
-            block.instructions.push_back(instruction::Stack::erase(0, -int(simulator.size())));
+            block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
             }
-- 
2.43.0


From 83eb1c55678463b99c558c055133b139f8232248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 026/159] fix: compiling pack or field nodes of constants
 failed

---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 89680b7..c2e4ed8 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -415,7 +415,8 @@ namespace ts {
         // check if each input is const or new
         std::vector<Tensor> const_inputs;
         std::vector<Node> const_input_nodes;
-        bool input_are_const = true;
+        // nodes converted to instructions have no operator to run at compile time
+        bool input_are_const = InstructionCreator::Query(node->op()) == nullptr;
         bool build_new_node = false;
         for (const auto &input : node.inputs()) {
             auto const_input = input;
-- 
2.43.0


From 87ae671cfe804303c5eaddc0c945cfb7b7f2b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 027/159] fix: translating a module dropped the declared dtype
 of its inputs

---
 src/compiler/option/fp16_translator_option.cpp | 2 +-
 src/compiler/option/pack_translator_option.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..b682d1f 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -24,7 +24,7 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 39f07d6..9be6985 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -32,7 +32,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
-- 
2.43.0


From 175d74473ffbbd2ac55f3f5c9c7477bdaf6e7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 028/159] fix: compiling with devices mapped to each other
 never ended

---
 src/compiler/argparse.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/compiler/argparse.cpp b/src/compiler/argparse.cpp
index 605a140..444effc 100644
--- a/src/compiler/argparse.cpp
+++ b/src/compiler/argparse.cpp
@@ -100,13 +100,12 @@ namespace ts {
 
     std::string ArgParser::map_device(const std::string &device) {
         auto stand_device = stand1(device);
-        while (true) {
+        // each mapping is followed once at most, in case of devices mapped to each other
+        for (size_t i = 0; i < this->m_map_device.size(); ++i) {
             auto it = this->m_map_device.find(stand_device);
-            if (it != this->m_map_device.end()) {
-                stand_device = it->second;
-            } else {
-                return stand2(stand_device);
-            }
+            if (it == this->m_map_device.end()) break;
+            stand_device = it->second;
         }
+        return stand2(stand_device);
     }
 }
-- 
2.43.0


From 39767c127c381fbc36a8a7115e0e9bd64a657873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 029/159] fix: compiling a module again hung on links left by
 the previous compilation

---
 include/module/graph.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..8b9de1d 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
-- 
2.43.0


From 5f91a19a0ab21bb0b69b994225b69146b516dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 030/159] fix: compiling a translated module packed its kernels
 again

---
 src/compiler/option/pack_translator_option.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 9be6985..89907f0 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -164,6 +164,12 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         kernel_node = inputs[2];
     }
 
+    // the kernel of an already translated node must not be packed again
+    if (node.bubble().has(name::kernel_packed) && tensor::to_bool(node.bubble().get(name::kernel_packed))) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
+
     if (kernel_node->op() != Bubble::Const) {
         Node::Link(translated_node, node.inputs());
         return true;
-- 
2.43.0


From 8866db01eb5fb95caf2748b1e1c9b6e2cde06d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 031/159] fix: moving a bubble lost its shape

---
 src/module/bubble.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..7d86612 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -41,6 +41,7 @@ namespace ts {
         this->m_name = std::move(other.m_name);
         // this->m_output_count = other.m_output_count;
         this->m_params = std::move(other.m_params);
+        this->m_shape = std::move(other.m_shape);
         return *this;
     }
 
-- 
2.43.0


From c5e9d993f440a9e4fffe58ef8a4c90946179862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 032/159] fix: truncated module and tensor data was accepted

---
 include/module/io/stream.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..b9dc422 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,19 +41,28 @@ namespace ts {
     };
 
     namespace binio {
+        /**
+         * read exactly size bytes, throw if the stream has not so many
+         */
+        inline size_t read_exactly(StreamReader &stream, void *buffer, size_t size) {
+            auto read_size = stream.read(buffer, size);
+            if (read_size != size) throw Exception("Unexpected end of stream.");
+            return read_size;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_exactly(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_exactly(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_exactly(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
-- 
2.43.0


From b3ec4a834966f32e9a04d1d4970d15acfd742816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 033/159] fix: node indices of a loaded module were not checked

---
 src/module/loaders/open.cpp | 4 ++--
 src/module/menu.cpp         | 2 +-
 src/module/module.cpp       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..4f25b37 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -30,9 +30,9 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
     const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
     // x.1 convert inputs and outputs
     std::vector<Node> inputs;
-    for (auto index : input_index) inputs.emplace_back(nodes[index]);
+    for (auto index : input_index) inputs.emplace_back(nodes.at(index));
     std::vector<Node> outputs;
-    for (auto index : output_index) outputs.emplace_back(nodes[index]);
+    for (auto index : output_index) outputs.emplace_back(nodes.at(index));
     Module::shared module = std::make_shared<Module>();
     module->load(g, outputs);
     module->sort_inputs(inputs);
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 4519f22..9b1e325 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -145,7 +145,7 @@ namespace ts {
         for (auto &node : nodes) {
             std::vector<Node> inputs;
             for (auto index : node.second) {
-                inputs.emplace_back(nodes[index].first);
+                inputs.emplace_back(nodes.at(index).first);
             }
             Node::Link(node.first, inputs);
         }
diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..4360ca8 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -316,9 +316,9 @@ namespace ts {
         const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
         // x.1 convert inputs and outputs
         std::vector<Node> inputs;
-        for (auto index : input_index) inputs.emplace_back(nodes[index]);
+        for (auto index : input_index) inputs.emplace_back(nodes.at(index));
         std::vector<Node> outputs;
-        for (auto index : output_index) outputs.emplace_back(nodes[index]);
+        for (auto index : output_index) outputs.emplace_back(nodes.at(index));
         Module::shared module = std::make_shared<Module>();
         module->load(g, outputs);
         module->sort_inputs(inputs);
-- 
2.43.0


From 94b05ac9cd53476bc164840184ef618dd6057a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 034/159] fix: standard exceptions escaped the C API

---
 src/api/declaration.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..ed361b1 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -35,13 +35,13 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
 return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &) { \
 }
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From 6a76c6b6b89adadbbffee01e3cc7fe427c03e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 035/159] fix: damaged tensor prototypes were not checked on
 loading

---
 src/core/tensor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..6f5a6e9 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -12,6 +12,7 @@
 
 #include <numeric>
 #include <mutex>
+#include <cstdint>
 
 #include <core/device_context.h>
 #include <runtime/runtime.h>
@@ -346,7 +347,7 @@ namespace ts {
         uint8_t dtype_buffer;
         read_size += binio::read<uint8_t >(stream, dtype_buffer);
         dtype = DTYPE(dtype_buffer);
-        TS_AUTO_CHECK(dtype >= 0);
+        TS_AUTO_CHECK(dtype >= VOID && dtype <= SINK8Q7);
         // 1.2 read sizes
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
@@ -355,6 +356,13 @@ namespace ts {
             read_size += binio::read<uint32_t>(stream, size_buffer);
             shape[i] = size_buffer;
         }
+        // 1.3 check sizes, count of elements must be in int32
+        int64_t count = 1;
+        for (auto &size : shape) {
+            TS_AUTO_CHECK(size >= 0);
+            count *= size;
+            TS_AUTO_CHECK(count <= INT32_MAX);
+        }
         // 1.x set proto
         proto = Tensor::Prototype(dtype, shape);
 
-- 
2.43.0


From 0cf82499027312e64801c4dfba02c9d44d43aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 036/159] fix: list sizes of damaged modules were allocated
 before reading

---
 src/core/tensor.cpp   |  6 ++++--
 src/module/bubble.cpp | 12 +++++++++---
 src/module/menu.cpp   |  6 ++++--
 src/module/module.cpp |  6 ++++--
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 6f5a6e9..78bb354 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -386,8 +386,10 @@ namespace ts {
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        std::vector<Tensor> fields(size_buffer);
-        for (auto &tensor : fields) {
+        std::vector<Tensor> fields;
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            fields.emplace_back();
+            auto &tensor = fields.back();
             Memory cpu_memory;
             read_size += externalize_prototype_memory(stream, tensor.m_proto, cpu_memory);
             tensor.m_memory = SyncMemory(cpu_memory);
diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index 7d86612..fd6f402 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -8,6 +8,7 @@
 #include <unordered_set>
 #include <cstdint>
 #include <climits>
+#include <algorithm>
 
 #include "utils/assert.h"
 #include "core/tensor_builder.h"
@@ -161,9 +162,14 @@ namespace ts {
         // 1.1 read name length
         read_size += binio::read<uint32_t>(stream, size_buffer);
         // 1.2 read name
-        std::vector<char> string_buffer(size_buffer);
-        read_size += binio::read<char>(stream, string_buffer.data(), size_buffer);
-        name = std::string(string_buffer.begin(), string_buffer.end());
+        name.clear();
+        char string_buffer[256];
+        while (size_buffer > 0) {
+            auto part = std::min<uint32_t>(size_buffer, sizeof(string_buffer));
+            read_size += binio::read<char>(stream, string_buffer, part);
+            name.append(string_buffer, part);
+            size_buffer -= part;
+        }
         // 2. read param's value
         read_size += value.externalize(stream);
         return read_size;
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 9b1e325..b7ab1ef 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -135,9 +135,11 @@ namespace ts {
             read_size += bubble.externalize(stream);
             // .2 read index
             read_size += binio::read<uint32_t>(stream, size_buffer);
-            std::vector<uint32_t> node_input_index(size_buffer);
-            for (auto &input_index : node_input_index) {
+            std::vector<uint32_t> node_input_index;
+            for (uint32_t j = 0; j < size_buffer; ++j) {
+                uint32_t input_index = 0;
                 read_size += binio::read<uint32_t>(stream, input_index);
+                node_input_index.push_back(input_index);
             }
             nodes.emplace_back(std::make_pair(g.make(bubble), node_input_index));
         }
diff --git a/src/module/module.cpp b/src/module/module.cpp
index 4360ca8..32d578d 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -285,9 +285,11 @@ namespace ts {
         uint32_t size_buffer = 0;
         size_t read_size = 0;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        list.resize(size_buffer);
-        for (auto &elem : list) {
+        list.clear();
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            uint32_t elem = 0;
             read_size += binio::read<uint32_t>(stream, elem);
+            list.push_back(elem);
         }
         return read_size;
     }
-- 
2.43.0


From 8404f97dc9c9220dd682261443ad84196d9e4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 037/159] fix: loading modules with nodes linked in cycle

---
 src/module/menu.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index b7ab1ef..9c4db9d 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -151,6 +151,27 @@ namespace ts {
             }
             Node::Link(node.first, inputs);
         }
+        // 3. check cycle, nodes linked in cycle can not be computed
+        std::vector<size_t> waiting(nodes.size());
+        std::vector<std::vector<size_t>> users(nodes.size());
+        std::vector<size_t> ready;
+        for (size_t i = 0; i < nodes.size(); ++i) {
+            waiting[i] = nodes[i].second.size();
+            if (waiting[i] == 0) ready.push_back(i);
+            for (auto index : nodes[i].second) users[index].push_back(i);
+        }
+        size_t solved = 0;
+        while (!ready.empty()) {
+            auto i = ready.back();
+            ready.pop_back();
+            ++solved;
+            for (auto user : users[i]) {
+                if (--waiting[user] == 0) ready.push_back(user);
+            }
+        }
+        if (solved != nodes.size()) {
+            TS_LOG_ERROR << "Found nodes linked in cycle." << eject;
+        }
         return read_size;
     }
 }
\ No newline at end of file
-- 
2.43.0


From ee702bf23dd06eae8980a5529cd1ad4553c237ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 038/159] fix: running a hook without program crashed

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..946aa42 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -582,6 +582,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
-- 
2.43.0


From 0a13e26db7c64883f348d63504a5a54c7a917acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 039/159] fix: cloned programs lost their input and output
 names

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cea8bab 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From 45995dfd556be9db14ea935efd4e6d4b7771267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 040/159] fix: gather read out of bounds with indices out of
 range

---
 src/backend/base/base_gather.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index f51ee06..aa2f953 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -70,6 +70,8 @@ namespace ts {
                 indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
                                                     indices_viewed.data<int32_t>()[i] + limit :
                                                     indices_viewed.data<int32_t>()[i];
+                auto index = indices_viewed.data<int32_t>()[i];
+                TS_AUTO_CHECK(index >= 0 && index < limit);
             }
             indices_viewed = indices_viewed.view(memory_device);
 
-- 
2.43.0


From 8be461d1482ee6ca4f284cdd4ba206df4873d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 041/159] fix: stack of tensors with different ranks read out
 of bounds

---
 src/kernels/cpu/stack_tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/stack_tensor.cpp b/src/kernels/cpu/stack_tensor.cpp
index 51e4cb6..4f14e96 100644
--- a/src/kernels/cpu/stack_tensor.cpp
+++ b/src/kernels/cpu/stack_tensor.cpp
@@ -30,6 +30,7 @@ namespace ts {
             int nargs = int(stack.size());
             for (int i = 0; i < nargs; ++i) {
                 auto &x = stack[i];
+                TS_AUTO_CHECK(int(x.dims()) + 1 == output_dims);
                 auto shape = x.sizes();
                 shape.insert(shape.begin() + fixed_axis, 1);
                 stack.push(x.reshape(shape));
-- 
2.43.0


From 02ea91b70cc85166d805ca900f8f0ebd436b5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 042/159] fix: matmul of tensors with less than 2 dims read out
 of bounds

---
 src/backend/base/base_matmul.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_matmul.cpp b/src/backend/base/base_matmul.cpp
index 32bfac7..c1088fe 100644
--- a/src/backend/base/base_matmul.cpp
+++ b/src/backend/base/base_matmul.cpp
@@ -31,8 +31,11 @@ namespace ts {
             auto a = stack[0];
             auto b = stack[1];
 
+            TS_AUTO_CHECK(a.dims() >= 1 && b.dims() >= 2);
+
             auto dim4 = false;
             if (b.dims() == 4) {
+                TS_AUTO_CHECK(a.dims() == 4);
                 auto one = a.size(0) * a.size(1) * b.size(0) * b.size(1);
                 if (!one) {
                     TS_LOG_ERROR << "Input of MatMal could be [1, 1, ?, k] and [1, 1, k, ?], but got "
-- 
2.43.0


From 3f331f931aeae5ce636c09fded21cd3c7fc4061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 043/159] fix: depthwise_conv2d read and wrote out of bounds
 with large padding

---
 .../cpu/depthwise_conv2d_algorithm.cpp        | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..13965f1 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -1,6 +1,8 @@
 #include "kernels/cpu/depthwise_conv2d_algorithm.h"
 #include "kernels/common/simd.h"
 
+#include <algorithm>
+
 #ifdef TS_USE_OPENMP
 #include "kernels/common/openmp.h"
 #endif
@@ -126,6 +128,9 @@ namespace ts {
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
             int w_start = padding.left == 0 ? 0 : padding.left;
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
+            // padding can be larger than output
+            h_start = std::min<int>(h_start, output_height);
+            w_start = std::min<int>(w_start, output_width);
             
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
@@ -148,9 +153,12 @@ namespace ts {
 //                    float32x4x2 k0_x4(kernel_at);
 //                    float32x4x2 k1_x4(kernel_at + 1);
 //#else
-                    float32x4 k0_x4(kernel_at);
-                    float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    // the kernel has only 9 values, but 10 values will be loaded
+                    float kernel_buffer[12] = {0};
+                    std::copy(kernel_at, kernel_at + 9, kernel_buffer);
+                    float32x4 k0_x4(kernel_buffer);
+                    float32x4 k1_x4(kernel_buffer + 3);
+                    float32x4 k2_x4(kernel_buffer + 6);
 //#endif
 
                     int h, w;
@@ -304,6 +312,9 @@ namespace ts {
             int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
             int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
             int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
+            // padding can be larger than output
+            h_start = std::min<int>(h_start, output_height);
+            w_start = std::min<int>(w_start, output_width);
 
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
@@ -322,9 +333,12 @@ namespace ts {
 
                     float* out_at = poutput + n * output_num_offset + c * output_channel_offset;
 
-                    float32x4 k0_x4(kernel_at);
-                    float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    // the kernel has only 9 values, but 10 values will be loaded
+                    float kernel_buffer[12] = {0};
+                    std::copy(kernel_at, kernel_at + 9, kernel_buffer);
+                    float32x4 k0_x4(kernel_buffer);
+                    float32x4 k1_x4(kernel_buffer + 3);
+                    float32x4 k2_x4(kernel_buffer + 6);
 
                     int h, w;
 
-- 
2.43.0


From dca551e035779203ea9ed730206cddf336c969b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 044/159] fix: tensors with negative sizes were allocated

---
 src/core/tensor.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 78bb354..69578eb 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -79,6 +79,20 @@ namespace ts {
         return proto.dtype() == VOID && proto.dims() == 0;
     }
 
+    /**
+     * Get bytes number of memory to be allocated,
+     * the prototype must have no negative size and its count must be in int32.
+     */
+    static size_t checked_bytes(const Tensor::Prototype &proto) {
+        int64_t count = 1;
+        for (auto &size : proto.sizes()) {
+            if (size < 0) TS_LOG_ERROR << "Can not alloc tensor with shape: " << to_string(proto.sizes()) << eject;
+            count *= size;
+            if (count > INT32_MAX) TS_LOG_ERROR << "Too large tensor with shape: " << to_string(proto.sizes()) << eject;
+        }
+        return size_t(count) * size_t(proto.type_bytes());
+    }
+
 //    static bool is_empty(DTYPE dtype, const Shape &shape) {
 //        return dtype == VOID && shape.size() == 0;
 //    }
@@ -101,31 +115,31 @@ namespace ts {
     Tensor::Tensor(MemoryController::shared controller, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : Smart<TensorMemory>(controller->alloc(static_cast<size_t>(proto.count() * proto.type_bytes()))))
+                       : Smart<TensorMemory>(controller->alloc(checked_bytes(proto))))
             , m_proto(proto) {}
 
     Tensor::Tensor(SyncMemoryController::shared controller, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : controller->alloc(static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : controller->alloc(checked_bytes(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(SyncMemoryController::shared controller, const Tensor::Prototype &proto, const MemoryDevice &device)
             : m_memory(is_empty(proto)
                        ? empty_memory(device)
-                       : controller->alloc(device, static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : controller->alloc(device, checked_bytes(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(const MemoryDevice &device, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory(device)
-                       : make_smart<TensorMemory>(device, static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : make_smart<TensorMemory>(device, checked_bytes(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : Smart<TensorMemory>(static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : Smart<TensorMemory>(checked_bytes(proto)))
             , m_proto(proto) {}
 
     Tensor::Tensor(const Memory &memory, const Tensor::Prototype &proto)
-- 
2.43.0


From 42ae543b59bef9ce081000cd8987d4ed1601a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 045/159] fix: conv2d with kernel larger than input gave an
 output

---
 include/backend/common_function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/backend/common_function.h b/include/backend/common_function.h
index d954883..b958841 100644
--- a/include/backend/common_function.h
+++ b/include/backend/common_function.h
@@ -32,10 +32,10 @@ namespace ts {
         Size2D y;
         y.height = Size2D::Dtype(std::floor(
                 (x.height + padding.top + padding.bottom -
-                 (dialations.height * (ksize.height - 1) + 1)) / stride.height + 1));
+                 (dialations.height * (ksize.height - 1) + 1)) / (double) stride.height + 1));
         y.width = Size2D::Dtype(std::floor(
                 (x.width + padding.left + padding.right -
-                 (dialations.width * (ksize.width - 1) + 1)) / stride.width + 1));
+                 (dialations.width * (ksize.width - 1) + 1)) / (double) stride.width + 1));
         return y;
     }
 
-- 
2.43.0


From 1fa1e0e48d5277165ba0c2ce3a6e0909859d4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 046/159] fix: max pooling fast paths computed nothing for
 float64 and exceeded small tensors; windows without elements gave values out
 of them

---
 src/kernels/cpu/pooling2d_core.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..bfadab2 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -17,13 +17,34 @@ namespace ts {
 
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
+        /**
+         * Check if the k3s2 or k2s2 kernel can be used along one dimension:
+         * no window is cut at both sides, and each window has something to be computed
+         */
+        static inline bool is_fit_kernel(int input, int output, int ksize, int padding) {
+            int padding_end = (output - 1) * 2 + ksize - input - padding;
+            if (padding_end >= ksize) return false;
+            if (padding > 0 && input < ksize - 1) return false;
+            return !(padding > 0 && padding_end > 0 && output < 2);
+        }
+
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Shape &input_shape,
+                                                  const Shape &output_shape,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // Notice: PoolingAlgorithm only supports float
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+
+            if (!is_fit_kernel(input_shape[2], output_shape[2], ksize.height, padding.top) ||
+                !is_fit_kernel(input_shape[3], output_shape[3], ksize.width, padding.left)) {
+                return pooling_kernel;
+            }
+
             if((stride.height == 2 && stride.width == 2) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
@@ -67,6 +88,11 @@ namespace ts {
                             ihStart = std::max<int>(ihStart, 0);
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
+                            if (ihStart >= ihEnd || iwStart >= iwEnd) {
+                                // nothing to be computed
+                                output_data[outIndex] = 0;
+                                continue;
+                            }
                             //T maxVlue = 0;
                             T maxVlue = input_data[ihStart * input_w + iwStart];
                             //int count = 0;
@@ -197,7 +223,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x.sizes(), out.sizes(), padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
-- 
2.43.0


From 589ca446f0d7e28269e3ac46dfbc5e89948ca538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 047/159] fix: dilation of _tf_conv2d_padding was not optional

---
 src/backend/tf/conv2d_padding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 12e591f..903096f 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -14,7 +14,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, OPTIONAL, tensor::build(INT32, {4}, {1, 1, 1, 1}));
             this->field(name::padding_method, REQUIRED);
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
-- 
2.43.0


From 01035775f8529dc36c35535dc67ad3d28ef6bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 048/159] fix: v2 pooling and convolutions ran with old
 arguments after a failed run

---
 src/kernels/cpu/conv2d_v2.cpp           | 13 ++++--
 src/kernels/cpu/conv2d_winograd_v2.cpp  | 13 ++++--
 src/kernels/cpu/depthwise_conv2d_v2.cpp | 13 ++++--
 src/kernels/cpu/pooling2d_v2.cpp        | 61 ++++++++++++-------------
 4 files changed, 56 insertions(+), 44 deletions(-)

diff --git a/src/kernels/cpu/conv2d_v2.cpp b/src/kernels/cpu/conv2d_v2.cpp
index f008fdb..13025ab 100644
--- a/src/kernels/cpu/conv2d_v2.cpp
+++ b/src/kernels/cpu/conv2d_v2.cpp
@@ -49,6 +49,7 @@ namespace ts {
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
+            if (rhs.dtype() != INT32) return false;    // rhs is not set
             if (!lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
@@ -63,9 +64,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                auto updated_padding = padding.clone();
+                m_int_padding4x2 = Tensor();   // not ready before initialized
+                m_op_conv2d->set(name::padding, updated_padding);
                 m_op_conv2d->init();
+                m_int_padding4x2 = updated_padding;
             }
 
             stack.push(0);
@@ -80,9 +83,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                auto updated_padding = padding.clone();
+                m_int_padding4x2 = Tensor();   // not ready before initialized
+                m_op_conv2d->set(name::padding, updated_padding);
                 m_op_conv2d->init();
+                m_int_padding4x2 = updated_padding;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/conv2d_winograd_v2.cpp b/src/kernels/cpu/conv2d_winograd_v2.cpp
index 21425d7..950dc46 100644
--- a/src/kernels/cpu/conv2d_winograd_v2.cpp
+++ b/src/kernels/cpu/conv2d_winograd_v2.cpp
@@ -40,6 +40,7 @@ namespace ts{
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
+            if (rhs.dtype() != INT32) return false;    // rhs is not set
             if (!lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
@@ -53,9 +54,11 @@ namespace ts{
 
             auto padding = tensor::cast(INT32, stack[1]);
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                auto updated_padding = padding.clone();
+                m_int_padding4x2 = Tensor();   // not ready before initialized
+                m_op_conv2d_winograd->set(name::padding, updated_padding);
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = updated_padding;
             }
 
             stack.push(0);
@@ -70,9 +73,11 @@ namespace ts{
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                auto updated_padding = padding.clone();
+                m_int_padding4x2 = Tensor();   // not ready before initialized
+                m_op_conv2d_winograd->set(name::padding, updated_padding);
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = updated_padding;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/depthwise_conv2d_v2.cpp b/src/kernels/cpu/depthwise_conv2d_v2.cpp
index a624e86..9a9fa66 100644
--- a/src/kernels/cpu/depthwise_conv2d_v2.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_v2.cpp
@@ -47,6 +47,7 @@ namespace ts {
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
+            if (rhs.dtype() != INT32) return false;    // rhs is not set
             if (!lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
@@ -61,9 +62,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                auto updated_padding = padding.clone();
+                m_int_padding4x2 = Tensor();   // not ready before initialized
+                m_op_conv2d->set(name::padding, updated_padding);
                 m_op_conv2d->init();
+                m_int_padding4x2 = updated_padding;
             }
 
             stack.push(0);
@@ -78,9 +81,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                auto updated_padding = padding.clone();
+                m_int_padding4x2 = Tensor();   // not ready before initialized
+                m_op_conv2d->set(name::padding, updated_padding);
                 m_op_conv2d->init();
+                m_int_padding4x2 = updated_padding;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/pooling2d_v2.cpp b/src/kernels/cpu/pooling2d_v2.cpp
index 06c9efa..8029502 100644
--- a/src/kernels/cpu/pooling2d_v2.cpp
+++ b/src/kernels/cpu/pooling2d_v2.cpp
@@ -41,6 +41,7 @@ namespace ts {
         }
 
         static bool is_int_equal(const Tensor &lhs, const Tensor &rhs) {
+            if (rhs.dtype() != INT32) return false;    // rhs is not set
             if (!lhs.has_shape(rhs.sizes())) return false;
             auto count = lhs.count();
             for (int i = 0; i < count; ++i) {
@@ -56,25 +57,23 @@ namespace ts {
             auto ksize = tensor::cast(INT32, stack[2]);
             auto stride = tensor::cast(INT32, stack[3]);
 
-            bool updated = false;
-            if (!is_int_equal(padding, m_padding_int4x2)) {
-                m_padding_int4x2 = padding.clone();
-                m_op_pooling2d->set(name::padding, m_padding_int4x2);
-                updated = true;
-            }
-            if (!is_int_equal(ksize, m_ksize_int4)) {
-                m_ksize_int4 = ksize.clone();
-                m_op_pooling2d->set(name::ksize, m_ksize_int4);
-                updated = true;
-            }
-            if (!is_int_equal(stride, m_stride_int4)) {
-                m_stride_int4 = stride.clone();
-                m_op_pooling2d->set(name::stride, m_stride_int4);
-                updated = true;
-            }
+            bool updated = !is_int_equal(padding, m_padding_int4x2)
+                           || !is_int_equal(ksize, m_ksize_int4)
+                           || !is_int_equal(stride, m_stride_int4);
 
             if (updated) {
+                // not ready before initialized
+                m_padding_int4x2 = Tensor();
+                auto updated_padding = padding.clone();
+                auto updated_ksize = ksize.clone();
+                auto updated_stride = stride.clone();
+                m_op_pooling2d->set(name::padding, updated_padding);
+                m_op_pooling2d->set(name::ksize, updated_ksize);
+                m_op_pooling2d->set(name::stride, updated_stride);
                 m_op_pooling2d->init();
+                m_padding_int4x2 = updated_padding;
+                m_ksize_int4 = updated_ksize;
+                m_stride_int4 = updated_stride;
             }
 
             stack.push(0);
@@ -89,25 +88,23 @@ namespace ts {
             auto ksize = tensor::cast(INT32, stack[2]);
             auto stride = tensor::cast(INT32, stack[3]);
 
-            bool updated = false;
-            if (!is_int_equal(padding, m_padding_int4x2)) {
-                m_padding_int4x2 = padding.clone();
-                m_op_pooling2d->set(name::padding, m_padding_int4x2);
-                updated = true;
-            }
-            if (!is_int_equal(ksize, m_ksize_int4)) {
-                m_ksize_int4 = ksize.clone();
-                m_op_pooling2d->set(name::ksize, m_ksize_int4);
-                updated = true;
-            }
-            if (!is_int_equal(stride, m_stride_int4)) {
-                m_stride_int4 = stride.clone();
-                m_op_pooling2d->set(name::stride, m_stride_int4);
-                updated = true;
-            }
+            bool updated = !is_int_equal(padding, m_padding_int4x2)
+                           || !is_int_equal(ksize, m_ksize_int4)
+                           || !is_int_equal(stride, m_stride_int4);
 
             if (updated) {
+                // not ready before initialized
+                m_padding_int4x2 = Tensor();
+                auto updated_padding = padding.clone();
+                auto updated_ksize = ksize.clone();
+                auto updated_stride = stride.clone();
+                m_op_pooling2d->set(name::padding, updated_padding);
+                m_op_pooling2d->set(name::ksize, updated_ksize);
+                m_op_pooling2d->set(name::stride, updated_stride);
                 m_op_pooling2d->init();
+                m_padding_int4x2 = updated_padding;
+                m_ksize_int4 = updated_ksize;
+                m_stride_int4 = updated_stride;
             }
 
 
-- 
2.43.0


From 10e487454cde9f8631709baa61159ee2c396d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 049/159] fix: quantize did not saturate large values and
 rounded ties by position

---
 src/kernels/cpu/quantize.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/kernels/cpu/quantize.cpp b/src/kernels/cpu/quantize.cpp
index e35e5d4..a378ac5 100644
--- a/src/kernels/cpu/quantize.cpp
+++ b/src/kernels/cpu/quantize.cpp
@@ -21,18 +21,16 @@ namespace ts {
 
         template<>
         inline int8_t to_int8<float>(const float src) {
-            auto int32_temp = int32_t(round(src));
-            if (int32_temp > 127) return 127;
-            if (int32_temp < -128) return -128;
-            return static_cast<int8_t>(int32_temp);
+            if (src >= 127) return 127;
+            if (src <= -128) return -128;
+            return static_cast<int8_t>(round(src));
         }
 
         template<>
         inline int8_t to_int8<double>(const double src) {
-            auto int32_temp = int32_t(round(src));
-            if (int32_temp > 127) return 127;
-            if (int32_temp < -128) return -128;
-            return static_cast<int8_t>(int32_temp);
+            if (src >= 127) return 127;
+            if (src <= -128) return -128;
+            return static_cast<int8_t>(round(src));
         }
 
         template<typename T>
@@ -86,16 +84,16 @@ namespace ts {
                     int ii = i * 8;
                     float32x4x2 input_x4x2(&input_data[ii]);  
                     float32x4x2 output_x4x2 = input_x4x2 * scale_x4x2;
-                    int32x4x2 output_int_x4x2 = floatx4x2_to_int32x4x2(output_x4x2);
-                    auto *output_int32x8 = (int32_t*)(void*)(&output_int_x4x2.value);
-                    *(output_data + ii) = to_int8(output_int32x8[0]);
-                    *(output_data + ii + 1) = to_int8(output_int32x8[1]);
-                    *(output_data + ii + 2) = to_int8(output_int32x8[2]);
-                    *(output_data + ii + 3) = to_int8(output_int32x8[3]);
-                    *(output_data + ii + 4) = to_int8(output_int32x8[4]);
-                    *(output_data + ii + 5) = to_int8(output_int32x8[5]);
-                    *(output_data + ii + 6) = to_int8(output_int32x8[6]);
-                    *(output_data + ii + 7) = to_int8(output_int32x8[7]);
+                    float output_float32x8[8];
+                    output_x4x2.store(output_float32x8);
+                    *(output_data + ii) = to_int8(output_float32x8[0]);
+                    *(output_data + ii + 1) = to_int8(output_float32x8[1]);
+                    *(output_data + ii + 2) = to_int8(output_float32x8[2]);
+                    *(output_data + ii + 3) = to_int8(output_float32x8[3]);
+                    *(output_data + ii + 4) = to_int8(output_float32x8[4]);
+                    *(output_data + ii + 5) = to_int8(output_float32x8[5]);
+                    *(output_data + ii + 6) = to_int8(output_float32x8[6]);
+                    *(output_data + ii + 7) = to_int8(output_float32x8[7]);
                     //*(output_data + ii) = to_int8(*((float*)&(output_x4x2.value)));
                     //*(output_data + ii + 1) = to_int8(*(((float*)&(output_x4x2.value)) + 1));
                     //*(output_data + ii + 2) = to_int8(*(((float*)&(output_x4x2.value)) + 2));
-- 
2.43.0


From e3125079bb5b75cdae64b4bcdf37c99765c83968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 050/159] fix: conv2d_quantized wrote channels to wrong places
 when run by several threads

---
 src/kernels/cpu/quantized/conv2d_quantized_core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
index 2760bae..804a5a2 100644
--- a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
+++ b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
@@ -88,6 +88,7 @@ namespace ts {
 #endif
                 for (int c = 0; c < out_shape[1]; c++){
                     auto input_cur = input_data + n * num_offset + c * channal_offset;
+                    auto output_cur = poutput + n * num_offset + c * channal_offset;
                     float dequantize_scale = dequantize_scales[c];
                     float32x4x2 dequantize_scale_x4x2(dequantize_scale);
                     int count = channal_offset;
@@ -97,11 +98,10 @@ namespace ts {
                         int ii = i * 8;
                         float32x4x2 input_x4x2 = intx4x2_to_float32x4x2(int32x4x2(&input_cur[ii]));
                         float32x4x2 out_x4x2 = input_x4x2 * dequantize_scale_x4x2;
-                        out_x4x2.store(poutput);
-                        poutput += 8;
+                        out_x4x2.store(&output_cur[ii]);
                     }
                     for (int i = remain; i < count; i++){
-                        *poutput++ = input_cur[i] * dequantize_scale;
+                        output_cur[i] = input_cur[i] * dequantize_scale;
                     }
                 }
             }
-- 
2.43.0


From f17efb5a10124418f719bbbdf54a1f5810e99594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 051/159] fix: dcn_v2_forward read out of bounds of operands
 that do not fit

---
 src/backend/torch/base_dcn_v2_forward.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backend/torch/base_dcn_v2_forward.cpp b/src/backend/torch/base_dcn_v2_forward.cpp
index a5c97ed..23d0455 100644
--- a/src/backend/torch/base_dcn_v2_forward.cpp
+++ b/src/backend/torch/base_dcn_v2_forward.cpp
@@ -143,6 +143,14 @@ namespace ts {
 
             Size2D y = conv2d_forward(x, padding, ksize, stride, dialations);
 
+            TS_AUTO_CHECK(m_deformable_groups > 0 && x_tensor.size(1) % m_deformable_groups == 0);
+            if (m_format == FORMAT_NCHW) {
+                auto kernels = m_deformable_groups * ksize.height * ksize.width;
+                TS_AUTO_CHECK(b_tensor.size(0) == w_tensor.size(0));
+                TS_AUTO_CHECK(offset_tensor.has_shape({x_tensor.size(0), 2 * kernels, y.height, y.width}));
+                TS_AUTO_CHECK(mask_tensor.has_shape({x_tensor.size(0), kernels, y.height, y.width}));
+            }
+
             Tensor::Prototype out_proto;
 
             if (m_format == FORMAT_NCHW) {
-- 
2.43.0


From 24abbc3f44c8fb18867d2a703a3a69f737f3b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 052/159] fix: reference counts of tensors were not thread safe

---
 include/core/threadsafe/smart.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..980c754 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -52,13 +52,13 @@ namespace ts {
         Counter &operator==(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
 #undef MOVE_MEMBER
+            this->use_count = other.use_count.load();
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,8 +113,7 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
+                if (--m_counted->use_count <= 0) {
                     delete m_counted;
                     m_counted = nullptr;
                 }
-- 
2.43.0


From b453decd1a5c4b1d8431594708f1e2a22203810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:07 +0000
Subject: [PATCH 053/159] fix: one module could not be compiled by several
 threads

---
 include/module/module.h | 7 +++++++
 src/runtime/program.cpp | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/include/module/module.h b/include/module/module.h
index 65964be..2c88e12 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -6,6 +6,7 @@
 #define TENSORSTACK_MODULE_MODULE_H
 
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 #include "core/tensor.h"
 
@@ -27,6 +28,9 @@ namespace ts {
 
         const std::vector<Node> &outputs() const { return m_outputs; }
 
+        /// mutex to be locked while nodes of this module are linked by others
+        std::recursive_mutex &mutex() const { return *m_mutex; }
+
         const Node &input(int i) const { return m_inputs[i]; }
 
         const Node &output(int i) const { return m_outputs[i]; }
@@ -101,6 +105,9 @@ namespace ts {
         std::vector<Node> m_inputs;
         std::vector<Node> m_outputs;
         std::vector<Graph> m_graphs;
+
+        // compiling links temporary nodes to the nodes of this module
+        std::shared_ptr<std::recursive_mutex> m_mutex = std::make_shared<std::recursive_mutex>();
     };
 
     class TS_DEBUG_API FormatMismatchException : public Exception {
diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index cea8bab..1742db2 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -59,6 +59,8 @@ namespace ts {
         auto device = ComputingDevice(parser.map_device(origin_device.type().std()), origin_device.id());
 
         Program::shared program(new Program(device));
+        // the module may be compiled by other threads at the same time
+        std::unique_lock<std::recursive_mutex> _lock_module(module->mutex());
         // translate module
         auto translated_module = Module::Translate(module, device, options);
         // TODO: support RNN
-- 
2.43.0


From 4cbec83246bf1984309d227ccdae2f8327e8767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 054/159] fix: keep subnormal half precision numbers when
 converting element types

---
 include/core/ieee754_float.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/core/ieee754_float.h b/include/core/ieee754_float.h
index 5b36157..049b52e 100644
--- a/include/core/ieee754_float.h
+++ b/include/core/ieee754_float.h
@@ -121,17 +121,31 @@ namespace ts {
 
             auto shift_left = int64_t(fraction) - int64_t(other.fraction);
             auto part_sign = (other.value_sign() << (W - 1));
-            auto part_fraction = shift_left > 0
-                                 ? (other.value_fraction() << shift_left)
-                                 : (other.value_fraction() >> -shift_left);
+            auto origin_fraction = other.value_fraction();
             auto origin_exponent = other.value_exponent() + bias;
+            if (other.value_exponent() == -int64_t(other.bias)) {
+                // subnormal number has no leading one, normalize it
+                origin_exponent++;
+                while ((origin_fraction >> other.fraction) == 0) {
+                    origin_fraction <<= 1;
+                    origin_exponent--;
+                }
+                origin_fraction &= other.mask_fraction().code;
+            }
+            auto part_fraction = shift_left > 0
+                                 ? (origin_fraction << shift_left)
+                                 : (origin_fraction >> -shift_left);
             // read url: https://baike.baidu.com/item/IEEE%20754/3869922?fr=aladdin
             // following code can make NaN number to max or min number
             constexpr auto max_exponent = (decltype(origin_exponent)(1) << exponent) - 2;
             constexpr auto max_fraction = (decltype(part_fraction)(1) << fraction) - 1;
-            if (origin_exponent < decltype(origin_exponent)(0)) {
+            if (origin_exponent <= decltype(origin_exponent)(0)) {
+                // subnormal number of this type, with the leading one written
+                auto shift_right = 1 - origin_exponent;
+                part_fraction |= decltype(part_fraction)(1) << fraction;
+                part_fraction = shift_right > int64_t(fraction) ? 0 : part_fraction >> shift_right;
+                if (part_fraction == 0) part_fraction = 1;  // smallest float
                 origin_exponent = 0;
-                part_fraction = 1;  // smallest float
             } else if (origin_exponent > max_exponent) {
                 origin_exponent = max_exponent;
                 part_fraction = max_fraction;
-- 
2.43.0


From 1b2337fcac4337704ddef17a2c1d267f3633a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 055/159] fix: reduce_mean read dims of any integer type as
 int32

---
 src/backend/base/base_reduce_mean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b24aad3..8a9f065 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -22,7 +22,7 @@ namespace ts {
             supper::init();
 
             m_dims.clear();
-            auto dims_tensor = this->get("dims");
+            auto dims_tensor = tensor::cast(INT32, this->get("dims"));
             int dims_dim = int(dims_tensor.dims());
             size_t dims_count = dims_dim == 0 ? 1 : (size_t)dims_tensor.size(0);
             m_dims.resize(dims_count);
-- 
2.43.0


From f4e40c05755b916515760396aebb3891d4220113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 056/159] fix: ts_Tensor_load reported success for a file it
 could not open

---
 src/core/tensor_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index f352cd6..5a54ef8 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -290,7 +290,7 @@ namespace ts {
 
         Tensor load(const std::string &filename) {
             FileStreamReader stream(filename);
-            if (!stream.is_open()) return Tensor();
+            if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
             return load(stream);
         }
 
-- 
2.43.0


From bdd18d5be554b2f50f4b2e98049ccf0b3a4d6b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 057/159] fix: saving to a file that can not be written
 reported success

---
 src/core/tensor_builder.cpp | 4 +++-
 src/module/module.cpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index 5a54ef8..03ec144 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -307,7 +307,9 @@ namespace ts {
         void save(const std::string &filename, const Tensor &tensor) {
             FileStreamWriter stream(filename);
             if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
-            return save(stream, tensor);
+            save(stream, tensor);
+            stream.close();
+            if (stream.stream().fail()) TS_LOG_ERROR << "Can not write " << filename << eject;
         }
     }
 
diff --git a/src/module/module.cpp b/src/module/module.cpp
index 32d578d..955ac65 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -278,7 +278,9 @@ namespace ts {
         FileStreamWriter stream(filename);
 
         TS_CHECK(stream.is_open()) << "Can not access: " << filename << eject;
-        Save(stream, module, format);  
+        Save(stream, module, format);
+        stream.close();
+        TS_CHECK(!stream.stream().fail()) << "Can not write: " << filename << eject;
     }
 
     size_t read_uint32_list(StreamReader &stream, std::vector<uint32_t> &list) {
-- 
2.43.0


From 7bb36f1f86f22b74c903b6aedbf49492ecec4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 058/159] fix: tensor slices out of range gave memory outside
 of the tensor

---
 src/core/tensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 69578eb..749a2b5 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -649,6 +649,7 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && i >= 0 && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
@@ -657,8 +658,8 @@ namespace ts {
     }
 
     Tensor Tensor::slice(int beg, int end) {
-        TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && beg >= 0 && beg < end && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From dc34b628be60919ad2bdd31db0db6f98f30aa2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 059/159] fix: division by zero in reshape to a shape with -1
 and 0

---
 src/core/tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 749a2b5..8a1882f 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -241,6 +241,9 @@ namespace ts {
         if (fixed_index >= 0) {
             auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
             auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
-- 
2.43.0


From d3e5bc39920014eb5eeab0c7ed46651bb479d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 060/159] fix: ts_Tensor_field accepted negative indices

---
 src/api/tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..de7d45a 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -144,6 +144,7 @@ ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len
 ts_Tensor *ts_Tensor_field(ts_Tensor *tensor, int32_t index) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (index < 0) throw Exception("Field index out of range: " + std::to_string(index));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->field(index)));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
-- 
2.43.0


From a61422be3d99a1dcf8c7128f7c9aac1669899982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 061/159] fix: Module::Route dropped the input slot

---
 include/module/module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/module/module.h b/include/module/module.h
index 2c88e12..c128237 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -81,7 +81,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From b4ce90d6223cb557906680f27c29d91d62bcb152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 062/159] fix: ts_set_error_message(NULL) ended the process

---
 src/api/common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..e569c4b 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,9 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
+    if (message == nullptr) {
+        ClearLEM();
+        return;
+    }
     SetLEM(message);
 }
-- 
2.43.0


From d4a2c6f022eeb8f10237ed1656d25dd664d4aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 063/159] fix: ts_Tensor_reshape read from a NULL shape

---
 src/api/tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index de7d45a..fb6cae7 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -113,6 +113,7 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (!shape && shape_len != 0) throw Exception("NullPointerException: @param: 2");
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
-- 
2.43.0


From 355af5fe5b10a2d8b93e98f5a928f60f23d53df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:24 +0000
Subject: [PATCH 064/159] fix: intime::memcpy accepted negative sizes

---
 src/frontend/intime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frontend/intime.cpp b/src/frontend/intime.cpp
index c739683..4336cc5 100644
--- a/src/frontend/intime.cpp
+++ b/src/frontend/intime.cpp
@@ -171,6 +171,7 @@ namespace ts {
                 Tensor &dst_desc, void *dst_data, int64_t dst_shift,
                 const Tensor &src_desc, const void *src_data, int64_t src_shift,
                 int64_t size) {
+            if (size < 0) TS_LOG_ERROR << "Can not copy " << size << " bytes." << eject;
             if (dst_data == nullptr) dst_data = dst_desc.data();
             if (src_data == nullptr) src_data = src_desc.data();
             auto copied = memcpy(reinterpret_cast<char *>(dst_data) + dst_shift, dst_desc.device(), size_t(size),
-- 
2.43.0


From 42ea7f57a728f2b691f35a5012e4f20dc2c3e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 065/159] fix: shapes with negative length were read in the
 tensor API

---
 src/api/tensor.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index fb6cae7..2e5829d 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -10,13 +10,18 @@
 
 using namespace ts;
 
+static Shape build_shape(const int32_t *shape, int32_t shape_len) {
+    if (shape_len < 0) throw Exception("Got shape with length " + std::to_string(shape_len));
+    return Shape(shape, shape + shape_len);
+}
+
 ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype, const void *data) {
     TRY_HEAD
     if (shape == nullptr) shape_len = 0;
     std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
     if (data == nullptr) {
-        **tensor = Tensor(DTYPE(dtype), Shape(shape, shape + shape_len));
+        **tensor = Tensor(DTYPE(dtype), build_shape(shape, shape_len));
         return tensor.release();
     }
 
@@ -26,7 +31,7 @@ ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype
             break;
 #define DECLARE_TENSOR_BUILD(api_dtype, type) \
         case api_dtype: \
-            **tensor = tensor::build(DTYPE(dtype), Shape(shape, shape + shape_len), \
+            **tensor = tensor::build(DTYPE(dtype), build_shape(shape, shape_len), \
                     reinterpret_cast<const type*>(data)); \
             break;
 
@@ -44,7 +49,7 @@ ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype
 #undef DECLARE_TENSOR_BUILD
         case TS_CHAR8:  // this is for trying build string
         {
-            Tensor tensor_string = tensor::build(INT8, Shape(shape, shape + shape_len),
+            Tensor tensor_string = tensor::build(INT8, build_shape(shape, shape_len),
                                                              reinterpret_cast<const int8_t*>(data));
             tensor_string = tensor::cast(CHAR8, tensor_string);
             **tensor = tensor_string;
@@ -114,7 +119,7 @@ ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t sh
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
         if (!shape && shape_len != 0) throw Exception("NullPointerException: @param: 2");
-        std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
+        std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(build_shape(shape, shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
 
@@ -131,7 +136,7 @@ ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len
         if (shape == nullptr) shape_len = 0;
         std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
-        **tensor = Tensor(Tensor::InFlow(in_flow), DTYPE(dtype), Shape(shape, shape + shape_len));
+        **tensor = Tensor(Tensor::InFlow(in_flow), DTYPE(dtype), build_shape(shape, shape_len));
 
         if (data != nullptr) {
             auto bytes = (*tensor)->proto().type_bytes() * (*tensor)->count();
-- 
2.43.0


From 9126a3e4e1618a34135dcbdfae9885a1518edeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:44 +0000
Subject: [PATCH 066/159] fix: fusion of modules with unused inputs failed

---
 src/module/module.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index 955ac65..d7755a4 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -491,10 +491,8 @@ namespace ts {
 
         auto cloned_outputs = clone_graph(outputs, cloned_nodes, linked_nodes);
 
-        std::vector<Node> cloned_inputs;
-        for (auto &input : inputs) {
-            cloned_inputs.emplace_back(cloned_nodes.at(input));
-        }
+        // inputs without users are cloned here
+        auto cloned_inputs = clone_graph(inputs, cloned_nodes, linked_nodes);
 
         auto fusion_module = std::make_shared<Module>();
         fusion_module->load(g, cloned_outputs);
-- 
2.43.0


From eb3942a3c8f624cdc30fe7f202f5cb6ec597e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 067/159] fix: a module could not be fused with itself

---
 src/module/module.cpp | 60 +++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index d7755a4..3f74a45 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -432,11 +432,18 @@ namespace ts {
 
     Module::shared
     Module::Fusion(const std::vector<shared> &submodules, const std::vector<Route> &routes) {
-        std::unordered_set<Node> set_linked_ins;
-        std::unordered_set<Node> set_linked_outs;
-
-        std::unordered_map<Node, Node> cloned_nodes;
-        std::unordered_map<Node, Node> linked_nodes;
+        // every use of one module is cloned by its own, the nodes shared by different modules are cloned once
+        struct Clones {
+            std::unordered_set<Node> set_linked_ins;
+            std::unordered_set<Node> set_linked_outs;
+            std::unordered_map<Node, Node> cloned_nodes;
+            std::unordered_map<Node, Node> linked_nodes;
+        };
+        std::vector<Clones> clones(submodules.size());
+        std::vector<size_t> uses(submodules.size());
+        for (size_t i = 0; i < submodules.size(); ++i) {
+            uses[i] = size_t(std::count(submodules.begin(), submodules.begin() + i, submodules[i]));
+        }
 
         Graph g;
         ctx::bind<Graph> _bind(g);
@@ -463,37 +470,46 @@ namespace ts {
             auto node_in = submodules[route_out]->input(route_out_in_slot);
             auto node_out = submodules[route_in]->output(route_in_out_slot);
 
-            set_linked_ins.insert(node_in);
-            set_linked_outs.insert(node_out);
+            auto &in = clones[uses[route_in]];
+            auto &out = clones[uses[route_out]];
+
+            out.set_linked_ins.insert(node_in);
+            in.set_linked_outs.insert(node_out);
 
             auto copy_out_in = bubble::op(node_in->name(), name::layer::copy(),
-                    clone_graph({node_out}, cloned_nodes, linked_nodes));
+                    clone_graph({node_out}, in.cloned_nodes, in.linked_nodes));
 
-            cloned_nodes.insert(std::make_pair(node_in, copy_out_in));
-            cloned_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
-            linked_nodes.insert(std::make_pair(node_in, copy_out_in));
-            linked_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
+            out.cloned_nodes.insert(std::make_pair(node_in, copy_out_in));
+            out.cloned_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
+            out.linked_nodes.insert(std::make_pair(node_in, copy_out_in));
+            out.linked_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
         }
 
-        std::vector<Node> inputs;
-        std::vector<Node> outputs;
+        std::vector<Node> cloned_inputs;
+        std::vector<Node> cloned_outputs;
 
-        for (auto &submodule : submodules) {
+        for (size_t i = 0; i < submodules.size(); ++i) {
+            auto &submodule = submodules[i];
+            auto &use = clones[uses[i]];
+            std::vector<Node> inputs;
+            std::vector<Node> outputs;
             for (auto &input : submodule->inputs()) {
-                if (set_linked_ins.find(input) != set_linked_ins.end()) continue;
+                if (use.set_linked_ins.find(input) != use.set_linked_ins.end()) continue;
                 inputs.emplace_back(input);
             }
             for (auto &output : submodule->outputs()) {
-                if (set_linked_outs.find(output) != set_linked_outs.end()) continue;
+                if (use.set_linked_outs.find(output) != use.set_linked_outs.end()) continue;
                 outputs.emplace_back(output);
             }
+            // inputs without users are cloned here
+            for (auto &node : clone_graph(inputs, use.cloned_nodes, use.linked_nodes)) {
+                cloned_inputs.emplace_back(node);
+            }
+            for (auto &node : clone_graph(outputs, use.cloned_nodes, use.linked_nodes)) {
+                cloned_outputs.emplace_back(node);
+            }
         }
 
-        auto cloned_outputs = clone_graph(outputs, cloned_nodes, linked_nodes);
-
-        // inputs without users are cloned here
-        auto cloned_inputs = clone_graph(inputs, cloned_nodes, linked_nodes);
-
         auto fusion_module = std::make_shared<Module>();
         fusion_module->load(g, cloned_outputs);
         fusion_module->sort_inputs(cloned_inputs);
-- 
2.43.0


From ecea212487286d76fb36a4acd6300156dac2f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 068/159] fix: plugin answers of infer were read with a wrong
 count

---
 src/api/operator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..67e4ad2 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -103,14 +103,17 @@ public:
             class _ : public std::exception {};
             try {
                 if (size <= 0) throw _();
-                packed_proto.resize(size);
+                // each field takes two numbers at least
+                auto fields_count = data[0];
+                if (fields_count <= 0 || fields_count > (size - 1) / 2) throw _();
+                packed_proto.resize(size_t(fields_count));
                 int anchor = 1;
-                for (int i = 0; i < size; ++i) {
+                for (int i = 0; i < fields_count; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
-                    if (size - anchor < this_dims) throw _();
+                    if (this_dims < 0 || size - anchor < this_dims) throw _();
                     Shape this_shape(this_dims);
                     for (int j = 0; j < this_dims; ++j) {
                         this_shape[j] = data[anchor++];
-- 
2.43.0


From 787d8221d6c26dede3f3ef3bd1f6a28470de03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 069/159] fix: operators that could not be created ended the
 process

---
 include/global/operator_factory.h | 2 +-
 src/global/operator_factory.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/global/operator_factory.h b/include/global/operator_factory.h
index 35b6a62..fb002f5 100644
--- a/include/global/operator_factory.h
+++ b/include/global/operator_factory.h
@@ -61,7 +61,7 @@ namespace ts {
 
         static Operator::shared CreateNoException(const DeviceType &device_type,
                                                   const std::string &operator_name,
-                                                  bool strict = false) TS_NOEXCEPT;
+                                                  bool strict = false);
 
         /**
          * Will throw OperatorNotFoundException if operator not found
diff --git a/src/global/operator_factory.cpp b/src/global/operator_factory.cpp
index 99ce607..9767f26 100644
--- a/src/global/operator_factory.cpp
+++ b/src/global/operator_factory.cpp
@@ -81,7 +81,7 @@ namespace ts {
     }
 
     Operator::shared OperatorCreator::CreateNoException(const DeviceType &device_type, const std::string &operator_name,
-                                                        bool strict) TS_NOEXCEPT {
+                                                        bool strict) {
         auto creator = TalentQuery(device_type, operator_name, strict);
         if (!creator) return nullptr;
         return creator();
-- 
2.43.0


From 24f19a49ae255e0313c9d5a6088d96f2ce0f4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:50 +0000
Subject: [PATCH 070/159] fix: sampling exactly at the last row or column of an
 image gave the outer value

---
 src/kernels/cpu/affine_sample2d.cpp | 12 ++++++------
 src/kernels/gpu/affine_sample2d.cu  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..5e0fbc8 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -72,8 +72,8 @@ namespace ts {
                     double lf_x_s = location.x;
                     double lf_y_s = location.y;
 
-                    auto inner = lf_x_s >= 0 && lf_x_s < src_width - 1 &&
-                                 lf_y_s >= 0 && lf_y_s < src_height - 1;
+                    auto inner = lf_x_s >= 0 && lf_x_s <= src_width - 1 &&
+                                 lf_y_s >= 0 && lf_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -139,8 +139,8 @@ namespace ts {
                     auto n_x_s = int(std::round(lf_x_s));
                     auto n_y_s = int(std::round(lf_y_s));
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -193,8 +193,8 @@ namespace ts {
                     auto n_x_s = int(lf_x_s);
                     auto n_y_s = int(lf_y_s);
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
diff --git a/src/kernels/gpu/affine_sample2d.cu b/src/kernels/gpu/affine_sample2d.cu
index 9ad7ff6..2dd64b9 100644
--- a/src/kernels/gpu/affine_sample2d.cu
+++ b/src/kernels/gpu/affine_sample2d.cu
@@ -48,8 +48,8 @@ namespace ts {
             double lf_x_s = curx;
             double lf_y_s = cury;
 
-            auto inner = lf_x_s >= 0 && lf_x_s < x_width - 1 &&
-                         lf_y_s >= 0 && lf_y_s < x_height - 1;
+            auto inner = lf_x_s >= 0 && lf_x_s <= x_width - 1 &&
+                         lf_y_s >= 0 && lf_y_s <= x_height - 1;
 
             if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                 pdst[index] = outer_value;
@@ -111,8 +111,8 @@ namespace ts {
             auto n_x_s = int(lf_x_s + 0.5);
             auto n_y_s = int(lf_y_s + 0.5);
 
-            auto inner = n_x_s >= 0 && n_x_s < x_width - 1 &&
-                         n_y_s >= 0 && n_y_s < x_height - 1;
+            auto inner = n_x_s >= 0 && n_x_s < x_width &&
+                         n_y_s >= 0 && n_y_s < x_height;
 
             if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                 pdst[index] = outer_value;
@@ -162,8 +162,8 @@ namespace ts {
             auto n_x_s = int(lf_x_s);
             auto n_y_s = int(lf_y_s);
 
-            auto inner = n_x_s >= 0 && n_x_s < x_width - 1 &&
-                         n_y_s >= 0 && n_y_s < x_height - 1;
+            auto inner = n_x_s >= 0 && n_x_s < x_width &&
+                         n_y_s >= 0 && n_y_s < x_height;
 
             if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                 pdst[index] = outer_value;
-- 
2.43.0


From a739658330f6f35c2a32cbb9af1bad19ab85652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 071/159] fix: linear sampling read beyond images of one row or
 column

---
 src/kernels/cpu/affine_sample2d.cpp | 10 +++++++---
 src/kernels/cpu/resize2d.cpp        | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5e0fbc8..76f655b 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -90,6 +90,10 @@ namespace ts {
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the neighbor is the pixel itself on images of one row or column
+                    int n_x_n = std::min(n_x_s + 1, src_width - 1);
+                    int n_y_n = std::min(n_y_s + 1, src_height - 1);
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -98,11 +102,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_n * src_width + n_x_n) * channels + c]));
 
                     } //end for c
                 }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..aba0249 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -1,6 +1,7 @@
 #include <kernels/cpu/resize2d.h>
 #include <core/tensor_builder.h>
 #include <memory>
+#include <algorithm>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -42,6 +43,10 @@ namespace ts {
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the neighbor is the pixel itself on images of one row or column
+                    int n_x_n = std::min(n_x_s + 1, src_width - 1);
+                    int n_y_n = std::min(n_y_s + 1, src_height - 1);
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -50,11 +55,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_n * src_width + n_x_n) * channels + c]);
 
                     }//end for c
                 }
-- 
2.43.0


From 4d1a6811f274bd3305664511f79bc7264d43e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 072/159] fix: cubic sampling read outside of images smaller
 than its kernel

---
 src/kernels/cpu/affine_sample2d.cpp | 76 +++++++++++++++++------------
 src/kernels/cpu/resize2d.cpp        | 73 +++++++++++++++------------
 2 files changed, 85 insertions(+), 64 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 76f655b..c03cbdb 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -266,21 +266,33 @@ namespace ts {
                         //continue;
                     }
                     else{
-                        if (sy < 1) {
-                            fy = 0;
-                            sy = 1;
+                        // images smaller than the kernel are extended by their border
+                        if (x_height > 3) {
+                            if (sy < 1) {
+                                fy = 0;
+                                sy = 1;
+                            }
+                            if (sy >= x_height - 3) {
+                                fy = 0;
+                                sy = x_height - 3;
+                            }
                         }
-                        if (sy >= x_height - 3) {
-                            fy = 0;
-                            sy = x_height - 3;
+                        if (x_width > 3) {
+                            if (sx < 1) {
+                                fx = 0;
+                                sx = 1;
+                            }
+                            if (sx >= x_width - 3) {
+                                fx = 0;
+                                sx = x_width - 3;
+                            }
                         }
-                        if (sx < 1) {
-                            fx = 0;
-                            sx = 1;
-                        }
-                        if (sx >= x_width - 3) {
-                            fx = 0;
-                            sx = x_width - 3;
+
+                        int ys[4];
+                        int xs[4];
+                        for (int t = 0; t < 4; ++t) {
+                            ys[t] = std::max(0, std::min(x_height - 1, sy - 1 + t));
+                            xs[t] = std::max(0, std::min(x_width - 1, sx - 1 + t));
                         }
 
                         coeffsY[0] = ((A * (fy + 1) - 5 * A) * (fy + 1) + 8 * A) * (fy + 1) - 4 * A;
@@ -295,25 +307,25 @@ namespace ts {
 
                         for (int k = 0; k < channels; k++) {
                             pdst[m * dstrows + n * channels + k] = clamp<T, double>(((
-                                    psrc[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3])));
+                                    psrc[ys[0] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                    psrc[ys[0] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                    psrc[ys[0] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                    psrc[ys[0] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[3])));
 
                         }
                     }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index aba0249..904e0b2 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -83,17 +83,21 @@ namespace ts {
                 double fy = (double) ((j + 0.5) * scale_y - 0.5);
                 int sy = int(floor(fy));
                 fy -= sy;
-                //sy = std::min(sy, src_height - 3);
-                //sy = std::max(1, sy);
-                if (sy < 1) {
-                    fy = 0;
-                    sy = 1;
-                }
+                // images smaller than the kernel are extended by their border
+                if (src_height > 3) {
+                    if (sy < 1) {
+                        fy = 0;
+                        sy = 1;
+                    }
 
-                if (sy >= src_height - 3) {
-                    fy = 0, sy = src_height - 3;
+                    if (sy >= src_height - 3) {
+                        fy = 0, sy = src_height - 3;
+                    }
                 }
 
+                int ys[4];
+                for (int t = 0; t < 4; ++t) ys[t] = std::max(0, std::min(src_height - 1, sy - 1 + t));
+
                 const double A = -0.75f;
 
                 double coeffsY[4];
@@ -107,13 +111,18 @@ namespace ts {
                     int sx = int(floor(fx));
                     fx -= sx;
 
-                    if (sx < 1) {
-                        fx = 0, sx = 1;
-                    }
-                    if (sx >= src_width - 3) {
-                        fx = 0, sx = src_width - 3;
+                    if (src_width > 3) {
+                        if (sx < 1) {
+                            fx = 0, sx = 1;
+                        }
+                        if (sx >= src_width - 3) {
+                            fx = 0, sx = src_width - 3;
+                        }
                     }
 
+                    int xs[4];
+                    for (int t = 0; t < 4; ++t) xs[t] = std::max(0, std::min(src_width - 1, sx - 1 + t));
+
                     double coeffsX[4];
                     coeffsX[0] = ((A * (fx + 1) - 5 * A) * (fx + 1) + 8 * A) * (fx + 1) - 4 * A;
                     coeffsX[1] = ((A + 2) * fx - (A + 3)) * fx * fx + 1;
@@ -122,25 +131,25 @@ namespace ts {
 
                     for (int k = 0; k < channels; ++k) {
                         dst_im[j * dstrows + i * channels + k] = (T) ((
-                                src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3]));
+                                src_im[ys[0] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                src_im[ys[0] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                src_im[ys[0] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                src_im[ys[0] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[3]));
 
                     }//end k
                 }
-- 
2.43.0


From c296e6f16f3e45a6542c5f373d604b72ecf84217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 073/159] fix: cubic resizing of integer images wrapped around
 where it overshoots

---
 src/kernels/cpu/resize2d.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index 904e0b2..ce88656 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -2,6 +2,7 @@
 #include <core/tensor_builder.h>
 #include <memory>
 #include <algorithm>
+#include <limits>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -12,6 +13,14 @@
 
 namespace ts {
     namespace cpu {
+        template<typename TO, typename FROM>
+        static TO clamp(FROM from) {
+            constexpr auto MAX = FROM(std::numeric_limits<TO>::max());
+            constexpr auto MIN = FROM(std::numeric_limits<TO>::lowest());
+            if (!std::numeric_limits<TO>::is_integer) return TO(from);
+            return TO(std::max(MIN, std::min(MAX, from)));
+        }
+
         template<typename T>
         static inline void Resize2d_ResizeImageLinear(const T *src_im, int src_width, int src_height, int channels,
                                                       T *dst_im, int dst_width, int dst_height) {
@@ -130,7 +139,7 @@ namespace ts {
                     coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
                     for (int k = 0; k < channels; ++k) {
-                        dst_im[j * dstrows + i * channels + k] = (T) ((
+                        dst_im[j * dstrows + i * channels + k] = clamp<T, double>((
                                 src_im[ys[0] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[0] +
                                 src_im[ys[1] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[1] +
                                 src_im[ys[2] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[2] +
-- 
2.43.0


From 1789c78f3d06725c1eaff7ce8cec9f1811ac36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 074/159] fix: resize_nearest_neighbor wrote out of bounds for
 x of less than two dims

---
 src/kernels/cpu/resize_nearest_neighbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/resize_nearest_neighbor.cpp b/src/kernels/cpu/resize_nearest_neighbor.cpp
index f6194e9..39e50fa 100644
--- a/src/kernels/cpu/resize_nearest_neighbor.cpp
+++ b/src/kernels/cpu/resize_nearest_neighbor.cpp
@@ -57,7 +57,7 @@ namespace ts {
             Shape x_shape = x.sizes();
 
             TS_AUTO_CHECK(m_dim >= 0);
-            TS_AUTO_CHECK(m_dim <= x_shape.size() - 2);
+            TS_AUTO_CHECK(m_dim + 2 <= int(x_shape.size()));
             Shape tmpshape(x_shape.size(), -1);
 
             tmpshape[m_dim] = size_tensor.data<int32_t>()[0];
@@ -84,7 +84,7 @@ namespace ts {
             Shape x_shape = x.sizes();
 
             TS_AUTO_CHECK(m_dim >= 0);
-            TS_AUTO_CHECK(m_dim <= x_shape.size() - 2);
+            TS_AUTO_CHECK(m_dim + 2 <= int(x_shape.size()));
 
             Shape tmpshape(x_shape.size(), -1);
 
-- 
2.43.0


From 12f584a467d3bcf7b1fd8136a22e50f271903269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 075/159] fix: resize_nearest_neighbor ignored align_corners

---
 include/kernels/cpu/resize_nearest_neighbor.h |  1 +
 src/kernels/cpu/resize_nearest_neighbor.cpp   | 27 +++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/kernels/cpu/resize_nearest_neighbor.h b/include/kernels/cpu/resize_nearest_neighbor.h
index ec1c3a1..bfa5691 100644
--- a/include/kernels/cpu/resize_nearest_neighbor.h
+++ b/include/kernels/cpu/resize_nearest_neighbor.h
@@ -21,6 +21,7 @@ namespace ts {
 
         private:
             Operator::shared m_op_resize2d;
+            Operator::shared m_op_affine_sample2d;    // used when corners are aligned
             int m_align_corners;
             int m_dim;
         };
diff --git a/src/kernels/cpu/resize_nearest_neighbor.cpp b/src/kernels/cpu/resize_nearest_neighbor.cpp
index 39e50fa..4776085 100644
--- a/src/kernels/cpu/resize_nearest_neighbor.cpp
+++ b/src/kernels/cpu/resize_nearest_neighbor.cpp
@@ -44,6 +44,16 @@ namespace ts {
 
             int type = (int)Resize2DType::NEAREST;
             m_op_resize2d->set(name::type, tensor::from(type));
+
+            if (!m_align_corners) return;
+
+            m_op_affine_sample2d = OperatorCreator::Create(context.computing_device.type(), name::layer::affine_sample2d(), false);
+
+            TS_CHECK_NQ(m_op_affine_sample2d, nullptr) << "Can not find operator: " << name::layer::affine_sample2d();
+
+            m_op_affine_sample2d->set(name::type, tensor::from(type));
+            m_op_affine_sample2d->set(name::dim, tensor::from(m_dim));
+            m_op_affine_sample2d->init();
         }
 
 
@@ -93,6 +103,23 @@ namespace ts {
 
             TS_AUTO_CHECK((tmpshape[m_dim] > 0) && (tmpshape[m_dim + 1] > 0));
 
+            if (m_align_corners) {
+                // centers of the corner pixels are mapped onto each other
+                Tensor affine(FLOAT32, {3, 3});
+                auto affine_data = affine.data<float>();
+                for (int i = 0; i < 9; ++i) affine_data[i] = 0;
+                auto scale = [](int in, int out) { return out > 1 ? float(in - 1) / (out - 1) : 0; };
+                affine_data[0] = scale(x_shape[m_dim + 1], tmpshape[m_dim + 1]);
+                affine_data[4] = scale(x_shape[m_dim], tmpshape[m_dim]);
+                affine_data[8] = 1;
+
+                stack.push(0);
+                stack.push(size_tensor);
+                stack.push(affine);
+
+                return RunOperator(m_op_affine_sample2d, stack, 3);
+            }
+
             Tensor newsize_tensor = tensor::from<int32_t>(tmpshape);
 
             m_op_resize2d->init();
-- 
2.43.0


From b8e7555bd7427f0affe9ec8e5e2151b859dea485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 076/159] fix: resizing or sampling an empty image read out of
 bounds

---
 src/backend/base/base_affine_sample2d.cpp | 4 ++++
 src/backend/base/base_resize2d.cpp        | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index 83b8d91..c51f7e3 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -94,6 +94,10 @@ namespace ts {
 
 
 
+            if (x.size(dim) == 0 || x.size(dim + 1) == 0) {
+                TS_LOG_ERROR << "Can not sample empty image " << to_string(x.sizes()) << eject;
+            }
+
             auto out = *stack.push(output[0], memory_device);
             
             
diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 22209fc..345887d 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -78,6 +78,9 @@ namespace ts {
                 TS_LOG_ERROR << "Can not resize " << to_string(x.sizes())
                              << " to " << to_string(Shape(size_data, size_data + n)) << eject;
             }
+            if (shape[resized_height_dim] == 0 || shape[resized_height_dim + 1] == 0) {
+                TS_LOG_ERROR << "Can not resize empty image " << to_string(x.sizes()) << eject;
+            }
             dim = resized_height_dim;
 
             Shape resized_shape = x.sizes();
-- 
2.43.0


From dbba25ae40f2793b1a511f5ae7a7aaf59f48bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 077/159] fix: affine_sample2d refused a scalar dim unless type
 was a scalar too

---
 src/backend/base/base_affine_sample2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index c51f7e3..880b02a 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -29,7 +29,7 @@ namespace ts {
             Tensor dim_tensor = tensor::cast(INT32, get(name::dim));
 
             TS_AUTO_CHECK(type_tensor.has_shape(1) || type_tensor.dims() == 0);
-            TS_AUTO_CHECK(dim_tensor.has_shape(1) || type_tensor.dims() == 0);
+            TS_AUTO_CHECK(dim_tensor.has_shape(1) || dim_tensor.dims() == 0);
 
             m_type = Affine_Sample2DType(tensor::to_int(type_tensor));
             m_dim = tensor::to_int(dim_tensor);
-- 
2.43.0


From 0b183884fc85a5e8eb308a0fa30923d3b44c78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 078/159] fix: a dim of size 0 grew to 1 when others were
 padded

---
 src/backend/base/base_pad.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_pad.cpp b/src/backend/base/base_pad.cpp
index 2bdd287..eb65008 100644
--- a/src/backend/base/base_pad.cpp
+++ b/src/backend/base/base_pad.cpp
@@ -34,6 +34,8 @@ namespace ts {
             Shape output_shape = x.sizes();
 
             for (size_t i = 0; i < output_shape.size(); ++i) {
+                // a dim that is not padded keeps its size, even 0
+                if (padding.data<int32_t>(i * 2) == 0 && padding.data<int32_t>(i * 2 + 1) == 0) continue;
                 output_shape[i] += (padding.data<int32_t>(i * 2) + padding.data<int32_t>(i * 2 + 1));
                 if (output_shape[i] < 1) output_shape[i] = 1;
             }
-- 
2.43.0


From 2b880c2f9265f22bb30d78a0b68dd792f735d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 079/159] fix: ts_ImageFilter_force_gray_v2 refused NULL for
 the default scale

---
 src/api/image_filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/image_filter.cpp b/src/api/image_filter.cpp
index 9d2b253..431049d 100644
--- a/src/api/image_filter.cpp
+++ b/src/api/image_filter.cpp
@@ -179,7 +179,8 @@ ts_bool ts_ImageFilter_force_gray(ts_ImageFilter *filter) {
 ts_bool ts_ImageFilter_force_gray_v2(ts_ImageFilter *filter, const float *scale, int32_t len) {
     TRY_HEAD
         if (!filter) throw Exception("NullPointerException: @param: 1");
-        if (!scale) throw Exception("NullPointerException: @param: 2");
+        // no scale means the default one
+        if (!scale) len = 0;
         (*filter)->force_gray(std::vector<float>(scale, scale + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
-- 
2.43.0


From 47866c50f3dffa20de295a3d785070e062b58810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 080/159] fix: prewhiten and norm_image of an empty batch ended
 the process

---
 src/kernels/cpu/norm_image.cpp | 1 +
 src/kernels/cpu/prewhiten.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/kernels/cpu/norm_image.cpp b/src/kernels/cpu/norm_image.cpp
index 10115a4..6a5736d 100644
--- a/src/kernels/cpu/norm_image.cpp
+++ b/src/kernels/cpu/norm_image.cpp
@@ -29,6 +29,7 @@ namespace ts {
             const T *input_data = x.data<T>();
             T *output_data = out.data<T>();
             auto count = size_t(out.count());
+            if (count == 0) return;
             std::memcpy(output_data, input_data, count * sizeof(T));
 
             T *at = nullptr;
diff --git a/src/kernels/cpu/prewhiten.cpp b/src/kernels/cpu/prewhiten.cpp
index 42080af..fe55eee 100644
--- a/src/kernels/cpu/prewhiten.cpp
+++ b/src/kernels/cpu/prewhiten.cpp
@@ -13,6 +13,7 @@ namespace ts {
 			const T *input_data = x.data<T>();
 			T *output_data = out.data<T>();
 			auto count = size_t(out.count());
+			if (count == 0) return;
 			std::memcpy(output_data, input_data, count * sizeof(T));
 
 			T *at = nullptr;
-- 
2.43.0


From 79cb18f3d40519cb4d3d605d367fe9a40c88904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 081/159] fix: scaling an empty image to its short side ended
 the process

---
 src/backend/zoo/nhwc_scale_resize2d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index ea9e735..a9b8d97 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -55,6 +55,9 @@ namespace ts {
             if (size.size() == 2) {
                 return Size2D(size[1], size[0]);
             } else {
+                if (x.height <= 0 || x.width <= 0) {
+                    TS_LOG_ERROR << "Can not scale image of " << x.width << "x" << x.height << eject;
+                }
                 if (x.height > x.width) {
                     return Size2D(size[0] * x.height / x.width, size[0]);
                 } else {
-- 
2.43.0


From b546340cd1204be256ab0cf972930a79a1966c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 082/159] fix: LSTM ran a reverse direction forward

---
 src/backend/base/base_lstm.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backend/base/base_lstm.cpp b/src/backend/base/base_lstm.cpp
index f17c063..fa368fd 100644
--- a/src/backend/base/base_lstm.cpp
+++ b/src/backend/base/base_lstm.cpp
@@ -14,7 +14,7 @@ namespace ts {
 
             if (has("direction")) {
                 auto dir_str = tensor::to_string(get("direction"));
-                m_direction = dir_str == "bidirectional" ? 2 : 0;
+                m_direction = dir_str == "bidirectional" ? 2 : (dir_str == "reverse" ? 1 : 0);
             }
             if (has("hidden_size")) {
                 m_hidden_size = tensor::to_int(get("hidden_size"));
@@ -202,11 +202,11 @@ namespace ts {
                 auto init_c_forward = initial_c.slice(0);
                 lstm_compute(stack, x, w_forward, r_forward, b_forward, init_h_forward, init_c_forward, 0, vTensor_f);
             } else if (m_direction == 1) {
-                auto w_reverse = w.slice(1);
-                auto r_reverse = r.slice(1);
-                auto b_reverse = b.slice(1);
-                auto init_h_reverse = initial_h.slice(1);
-                auto init_c_reverse = initial_c.slice(1);
+                auto w_reverse = w.slice(0);
+                auto r_reverse = r.slice(0);
+                auto b_reverse = b.slice(0);
+                auto init_h_reverse = initial_h.slice(0);
+                auto init_c_reverse = initial_c.slice(0);
                 lstm_compute(stack, x, w_reverse, r_reverse, b_reverse, init_h_reverse, init_c_reverse, 1, vTensor_r);
             } else if (m_direction == 2) {
                 auto w_forward = w.slice(0);
-- 
2.43.0


From 7c5ca1fd2a86644f376b967482229c2c255dd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 083/159] fix: LSTM of an empty sequence ended the process

---
 src/kernels/cpu/lstm.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kernels/cpu/lstm.cpp b/src/kernels/cpu/lstm.cpp
index 4e3504d..39af85d 100644
--- a/src/kernels/cpu/lstm.cpp
+++ b/src/kernels/cpu/lstm.cpp
@@ -144,6 +144,13 @@ namespace ts {
                 stack.erase(7, -1);
             }
 
+            // nothing comes out of an empty sequence, the states stay as they are
+            if (seq_len == 0) {
+                output = Tensor(x.dtype(), {0, Ht.size(0), Ht.size(1)});
+                Ht = Ht.clone();
+                Ct = Ct.clone();
+            }
+
             out[0] = output;
             out[1] = Ht;
             out[2] = Ct;
-- 
2.43.0


From 72fcac29d5e28c6b47b7c044402feb977b6b1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 084/159] fix: proposal reshaped its outputs after filling them
 and lost the regions

---
 include/kernels/common/third/dragon/tensor.h | 25 +++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/kernels/common/third/dragon/tensor.h b/include/kernels/common/third/dragon/tensor.h
index 3ce2c27..a2a9c83 100644
--- a/include/kernels/common/third/dragon/tensor.h
+++ b/include/kernels/common/third/dragon/tensor.h
@@ -138,15 +138,19 @@ namespace ts {
 
             bool updated() const { return m_shape_updated; }
 
-            ts::Tensor t() const { return m_tst; }
+            ts::Tensor t() const {
+                shrink_to_shape();
+                return m_tst;
+            }
 
             const std::vector<int64_t> &shape() const { return m_shape; }
 
             void reshape(const std::vector<int64_t> &shape) {
-                m_shape_updated = m_shape.size() != shape.size();
+                auto &sizes = m_tst.sizes();
+                m_shape_updated = sizes.size() != shape.size();
                 if (!m_shape_updated) {
                     for (size_t i = 0; i < shape.size(); ++i) {
-                        if (m_shape[i] != shape[i]) {
+                        if (sizes[i] != shape[i]) {
                             m_shape_updated = true;
                             break;
                         }
@@ -155,6 +159,20 @@ namespace ts {
                 m_shape = shape;
             }
 
+            // A tensor reshaped to no more elements than it has keeps its leading ones.
+            void shrink_to_shape() const {
+                if (!m_shape_updated || m_tst.dtype() == VOID) return;
+                ts::Tensor::Prototype proto(m_tst.dtype(), cast_tensor<int32_t>(m_shape));
+                if (proto.count() > m_tst.count()) return;
+                auto device = m_tst.device();
+                auto flow = ctx::of<Workbench>::ref().runtime().flow();
+                ts::Tensor shrunk(flow, proto, device);
+                auto bytes = size_t(proto.count()) * proto.type_bytes();
+                memcpy(shrunk.data(), device, bytes, m_tst.data(), device, bytes);
+                m_tst = shrunk;
+                m_shape_updated = false;
+            }
+
             const void *view(const MemoryDevice &device) const {
                 m_tst = m_tst.view(device);
                 return m_tst.data();
@@ -202,6 +220,7 @@ namespace ts {
 
             template<typename Context>
             void ensure_dtype_and_shape(DTYPE dtype) const {
+                if (this->dtype() == dtype) shrink_to_shape();
                 if (this->dtype() == dtype && !m_shape_updated) return;
                 auto flow = ctx::of<Workbench>::ref().runtime().flow();
                 if (TypeMeta::Id<Context>() == TypeMeta::Id<CPUContext>()) {
-- 
2.43.0


From e49833b046ae14ebb3239c28cb7e68fbcd2a9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 085/159] fix: proposal used the first image's scores and
 deltas for every image

---
 src/kernels/cpu/dragon/proposal_op.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 0218212..84f5ffd 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -121,6 +121,8 @@ void ProposalOp<Context>::RunWithType(
         total_rois += num_rois;
         Ydata += (num_rois * 5);
         im_info += Input(-1).dim(1);
+        scores += Input(-3).count() / num_images;
+        bbox_deltas += Input(-2).count() / num_images;
     }
     Output(0)->Reshape(vector<int64_t>({ total_rois, 5 }));
 
-- 
2.43.0


From 964f40efe71167b6caa47c13ca1929a3ac696cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 086/159] fix: prior_box dropped the fraction of step_h and
 step_w

---
 src/kernels/cpu/prior_box.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index d979dda..0bc5a6b 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -118,9 +118,9 @@ namespace ts {
                 if (has("step_h") || has("step_w")) {
                     TS_CHECK(!has("step"))
                             << "Either step or step_h/step_w should be specified; not both." << eject;
-                    step_h_ = tensor::to_int(get("step_h"));
+                    step_h_ = tensor::to_float(get("step_h"));
                     TS_CHECK_GT(step_h_, 0.) << "step_h should be larger than 0." << eject;
-                    step_w_ = tensor::to_int(get("step_w"));
+                    step_w_ = tensor::to_float(get("step_w"));
                     TS_CHECK_GT(step_w_, 0.) << "step_w should be larger than 0." << eject;
                 } else if (has("step")) {
                     const float step = tensor::to_float(get("step"));
-- 
2.43.0


From c9d147e07081dfdcdb6edc23ab5e4db5a1dc1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 087/159] fix: roi_align read past its inputs for regions of
 missing images

---
 src/kernels/cpu/roi_align.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index dc51223..b609fd9 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -28,6 +28,20 @@ namespace ts {
             }
 
             int run(Stack &stack) override {
+                TS_AUTO_CHECK(stack.size() == 2);
+                auto &x = stack[0];
+                auto &rois = stack[1];
+                TS_AUTO_CHECK(x.dims() == 4 && x.dtype() == FLOAT32);
+                TS_AUTO_CHECK(rois.dims() == 2 && rois.size(1) == 5 && rois.dtype() == FLOAT32);
+                auto rois_data = rois.data<float>();
+                for (int i = 0; i < rois.size(0); ++i) {
+                    if (!(rois_data[i * 5] < x.size(0))) {
+                        TS_LOG_ERROR << "Region " << i << " is on image " << rois_data[i * 5]
+                                     << " of " << x.size(0) << eject;
+                    }
+                }
+                TS_AUTO_CHECK(rois.size(0) == 0 || (x.size(2) > 0 && x.size(3) > 0));
+
                 m_dragon->bind_outputs(1);
 
                 m_dragon->bind_inputs(std::vector<Tensor>(stack.begin(), stack.end()));
-- 
2.43.0


From 727ccfa23c5269601d84d5b421e66a0d34575bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 088/159] fix: proposal read past scores and deltas that do not
 cover its features

---
 include/kernels/common/third/dragon/tensor.h |  2 ++
 src/kernels/cpu/dragon/bbox_utils.h          |  1 +
 src/kernels/cpu/dragon/proposal_op.cpp       | 16 ++++++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/include/kernels/common/third/dragon/tensor.h b/include/kernels/common/third/dragon/tensor.h
index a2a9c83..fa32ccd 100644
--- a/include/kernels/common/third/dragon/tensor.h
+++ b/include/kernels/common/third/dragon/tensor.h
@@ -271,6 +271,8 @@ namespace ts {
 
             int64_t dim(int64_t i) const { return m_obj->dim(i); }
 
+            const std::vector<int64_t> &shape() const { return m_obj->shape(); }
+
             self *Reshape(const std::vector<int64_t> &shape) {
                 m_obj->reshape(shape);
                 return this;
diff --git a/src/kernels/cpu/dragon/bbox_utils.h b/src/kernels/cpu/dragon/bbox_utils.h
index 59a97ab..ddc5963 100644
--- a/src/kernels/cpu/dragon/bbox_utils.h
+++ b/src/kernels/cpu/dragon/bbox_utils.h
@@ -153,6 +153,7 @@ inline void SortProposals(
     const int                       end,
     const int                       num_top,
     T*                              proposals) {
+    if (start >= end) return;
     const T pivot_score = proposals[start * 5 + 4];
     int left = start + 1, right = end;
     while (left <= right) {
diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index 84f5ffd..f06fb24 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -162,6 +162,22 @@ void ProposalOp<Context>::RunOnDevice() {
     CHECK_EQ(Input(-1).dim(0), num_images)
         << "\nExcepted " << num_images << " groups image info, "
         << "but got " << Input(-1).dim(0) << "." << eject;
+    CHECK_GT(post_nms_top_n, 0) << "\npost_nms_top_n must > 0" << eject;
+    CHECK_EQ(Input(-1).shape().size(), 2) << "\nimage info must be [N, 3]" << eject;
+    CHECK_GT(Input(-1).dim(1), 2) << "\nimage info must be [N, 3]" << eject;
+    // Every image needs a score and 4 deltas for each of its proposals
+    int64_t required = 0;
+    for (size_t i = 0; i < strides.size(); ++i) {
+        if (i >= InputSize()) break;
+        CHECK_EQ(Input(int(i)).shape().size(), 4)
+            << "\nfeatures must be [N, C, H, W]" << eject;
+        required += Input(int(i)).dim(2) * Input(int(i)).dim(3) *
+            int64_t(ratios.size() * (strides.size() > 1 ? 1 : scales.size()));
+    }
+    CHECK_GT(Input(-3).count() + 1, num_images * required)
+        << "\nToo few scores for " << required << " proposals." << eject;
+    CHECK_GT(Input(-2).count() + 1, num_images * required * 4)
+        << "\nToo few deltas for " << required << " proposals." << eject;
     roi_indices_.Reshape({ post_nms_top_n });
     Output(0)->Reshape({ num_images * post_nms_top_n, 5 });
 
-- 
2.43.0


From 41d694dfec5bbadb4ec96a62e9e107f8b7d3c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 089/159] fix: prior_box read past the shape of inputs with
 less than 4 dims

---
 src/kernels/cpu/prior_box.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index 0bc5a6b..e0ebcfd 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -164,6 +164,7 @@ namespace ts {
 
             int run(Stack &stack) final {
                 TS_AUTO_CHECK(stack.size() >= 1);
+                TS_AUTO_CHECK(stack[0].dims() == 4);
                 auto feat = tensor::cast(FLOAT32, stack[0]);
                 auto &top = *stack.push(FLOAT32, infer_top_shape(feat), CPU);
                 using Dtype = float;
@@ -174,6 +175,7 @@ namespace ts {
                 if (img_h_ == 0 || img_w_ == 0) {
                     TS_AUTO_ASSERT(stack.size() > 1);
                     auto &img = stack[1];
+                    TS_AUTO_CHECK(img.dims() == 4);
                     img_width = img.size(3);
                     img_height = img.size(2);
                 } else {
-- 
2.43.0


From f354d642e7af60f05dba86e0c636080d57e199c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 090/159] fix: yolo_poster read past the anchors of a mask that
 names a missing one

---
 src/kernels/cpu/yolo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernels/cpu/yolo.cpp b/src/kernels/cpu/yolo.cpp
index 174b52b..011fdba 100644
--- a/src/kernels/cpu/yolo.cpp
+++ b/src/kernels/cpu/yolo.cpp
@@ -40,6 +40,12 @@ namespace ts {
                 m_mask = tensor::array::to_int(param.mask);
                 m_anchors = tensor::array::to_float(param.anchors);
                 m_n = int(m_mask.size());
+
+                for (auto mask : m_mask) {
+                    if (mask < 0 || size_t(mask) * 2 + 1 >= m_anchors.size()) {
+                        TS_LOG_ERROR << "There is no anchor " << mask << " in " << m_anchors.size() / 2 << eject;
+                    }
+                }
             }
 
             /**
-- 
2.43.0


From 6c723e37d619fabad3e47132f83f53ddcf9a5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 091/159] fix: detection_output refused shared locations
 without a background class

---
 src/kernels/cpu/caffe/bbox_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/caffe/bbox_util.cpp b/src/kernels/cpu/caffe/bbox_util.cpp
index 888dc10..8ccab07 100644
--- a/src/kernels/cpu/caffe/bbox_util.cpp
+++ b/src/kernels/cpu/caffe/bbox_util.cpp
@@ -644,7 +644,7 @@ namespace ts {
                 LabelBBox &decode_bboxes = (*all_decode_bboxes)[i];
                 for (int c = 0; c < num_loc_classes; ++c) {
                     int label = share_location ? -1 : c;
-                    if (label == background_label_id) {
+                    if (!share_location && label == background_label_id) {
                         // Ignore background class.
                         continue;
                     }
-- 
2.43.0


From a210a0c10f5e7b0f0d02f606a61c7c55cc32c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 092/159] fix: detection_output read past priors without
 variances

---
 src/kernels/cpu/detection_output.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kernels/cpu/detection_output.cpp b/src/kernels/cpu/detection_output.cpp
index 7cd6fd2..35aeffc 100644
--- a/src/kernels/cpu/detection_output.cpp
+++ b/src/kernels/cpu/detection_output.cpp
@@ -88,6 +88,7 @@ namespace ts {
 
             std::vector<int> infer_top_shape(Stack &stack, bool alloc_buffer = false) {
                 auto &bottom = stack;
+                TS_AUTO_CHECK(bottom[0].dims() >= 2 && bottom[1].dims() >= 2 && bottom[2].dims() >= 3);
                 TS_AUTO_CHECK_EQ(bottom[0].size(0), bottom[1].size(0));
 
                 // malloc memory, remeber to free then
@@ -102,6 +103,8 @@ namespace ts {
                         << "Number of priors must match number of location predictions." << eject;
                 TS_CHECK_EQ(num_priors_ * num_classes_, bottom[1].size(1))
                         << "Number of priors must match number of confidence predictions." << eject;
+                TS_CHECK_GE(bottom[2].count(), num_priors_ * 8)
+                        << "Priors must come with their variances." << eject;
                 // num() and channels() are 1.
                 std::vector<int> top_shape(2, 1);
                 // Since the number of bboxes to be kept is unknown before nms, we manually
-- 
2.43.0


From 828cd62b3585ab7eefc489bfcf5fbcbb9b8e555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 093/159] fix: shape_index_patch read past positions that do
 not match x

---
 src/backend/base/base_shape_index_patch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/base/base_shape_index_patch.cpp b/src/backend/base/base_shape_index_patch.cpp
index b507ddc..3795e6c 100644
--- a/src/backend/base/base_shape_index_patch.cpp
+++ b/src/backend/base/base_shape_index_patch.cpp
@@ -30,6 +30,9 @@ namespace ts {
             m_origin_patch.width = int32_origin_path.data<int32_t>(1);
             m_origin.height = int32_origin.data<int32_t>(0);
             m_origin.width = int32_origin.data<int32_t>(1);
+
+            TS_AUTO_CHECK(m_origin_patch.height >= 0 && m_origin_patch.width >= 0);
+            TS_AUTO_CHECK(m_origin.height > 0 && m_origin.width > 0);
         }
 
         int ShapeIndexPatch::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
@@ -42,6 +45,7 @@ namespace ts {
             TS_AUTO_CHECK(x.dims() == 4);
             TS_AUTO_CHECK(pos.dims() == 4);
             TS_AUTO_CHECK(x.dtype() == pos.dtype());
+            TS_AUTO_CHECK(pos.size(0) == x.size(0) && pos.size(2) == 1 && pos.size(3) == 1);
 
             auto landmarkx2 = pos.size(1);
 
-- 
2.43.0


From f442af2433b476481d7af7082a433a2d0b2de560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 094/159] fix: AES_init_ctx_iv used the key beyond its length
 instead of the padded key

---
 src/encryption/aes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encryption/aes.cpp b/src/encryption/aes.cpp
index b6f8ee9..545f67d 100644
--- a/src/encryption/aes.cpp
+++ b/src/encryption/aes.cpp
@@ -264,7 +264,7 @@ void AES_init_ctx_iv(struct AES_ctx* ctx, const uint8_t* key, uint32_t key_lengt
       }
   }
 
-  KeyExpansion(ctx->RoundKey, key);
+  KeyExpansion(ctx->RoundKey, default_key);
   memcpy (ctx->Iv, default_iv, AES_BLOCKLEN);
 }
 
-- 
2.43.0


From d05d8f8356a8cba987d88cd59caad28e48aae046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 095/159] fix: reading an encrypted file with another key or a
 damaged end read out of bounds

---
 src/encryption/aes_fstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..b4b566d 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,13 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                int padding = m_master[AES_BLOCKLEN - 1];
+                if(padding < 1 || padding > AES_BLOCKLEN) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file padding is error!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= padding;
             } 
 
             
-- 
2.43.0


From ec968ce09fcc17adaf63ddcf011a62a9ac4beb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 096/159] fix: a failed write of an encrypted file was not
 reported or ended the program

---
 src/encryption/aes_fstream.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index b4b566d..c4a6387 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -154,7 +154,7 @@ namespace ts {
                 m_stream.write(reinterpret_cast<const char *>(m_master), AES_BLOCKLEN);
                 nwrite += AES_BLOCKLEN - m_master_datalen; 
                 m_master_datalen = 0;
-                if(m_stream.bad()) {
+                if(m_stream.fail()) {
                     return 0;
                 }
             }
@@ -174,7 +174,11 @@ namespace ts {
     }
 
     AESFileStreamWriter::~AESFileStreamWriter() {
-         close();
+         try {
+             close();
+         } catch (const Exception &) {
+             // a destructor must not throw
+         }
     }
 
     void AESFileStreamWriter::close() {
@@ -186,10 +190,6 @@ namespace ts {
             AES_ECB_encrypt(&m_ctx, m_master);  
             m_stream.write(reinterpret_cast<const char *>(m_master), AES_BLOCKLEN);
             m_master_datalen = 0;
-            if(m_stream.bad()) {
-                TS_LOG_ERROR << "write mode file failed!" << eject;
-                return;
-            }
         } 
         uint8_t npadding = (uint8_t)(AES_BLOCKLEN - m_master_datalen);
         uint8_t buf[AES_BLOCKLEN];
@@ -200,6 +200,9 @@ namespace ts {
         m_stream.write(reinterpret_cast<const char *>(buf), AES_BLOCKLEN);
         m_master_datalen = 0;
         m_stream.close();
+        if(m_stream.fail()) {
+            TS_LOG_ERROR << "write mode file failed!" << eject;
+        }
     }
 
 }
-- 
2.43.0


From 28669aad4a3ff2311190210351f8561969ae619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 097/159] fix: stream writers reported writes that failed as
 done

---
 src/module/io/fstream.cpp | 4 ++--
 src/module/io/sstream.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 1cc4fa8..6b1c945 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -61,7 +61,7 @@ namespace ts {
 
     size_t FileStreamWriter::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     FileStreamWriter::FileStreamWriter(const std::string &path)
@@ -88,7 +88,7 @@ namespace ts {
 
     size_t FileStream::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     FileStream::FileStream(const std::string &path)
diff --git a/src/module/io/sstream.cpp b/src/module/io/sstream.cpp
index 177abbf..9a78b3b 100644
--- a/src/module/io/sstream.cpp
+++ b/src/module/io/sstream.cpp
@@ -38,7 +38,7 @@ namespace ts {
 
     size_t StringStreamWriter::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     StringStreamWriter::StringStreamWriter(const StringStreamWriter::string &buffer)
@@ -63,7 +63,7 @@ namespace ts {
 
     size_t StringStream::write(const void *buffer, size_t size) {
         m_stream.write(reinterpret_cast<const char *>(buffer), size);
-        return m_stream.bad() ? 0 : size;
+        return m_stream.fail() ? 0 : size;
     }
 
     StringStream::StringStream(const StringStream::string &buffer)
-- 
2.43.0


From 712fa3a22d4485395d7cd3619917cf6ff1c68f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 098/159] fix: a file stream could not be rewound after reading
 past its end

---
 src/module/io/fstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 6b1c945..ae28eb7 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -38,6 +38,7 @@ namespace ts {
     }
 
     void FileStreamReaderV2::rewind() {
+        m_stream.clear();
         m_stream.seekg(0, std::ios::beg);
     }
 
-- 
2.43.0


From 657cb2834173c7a90d5ff7de35646b9b0a254a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:31 +0000
Subject: [PATCH 099/159] fix: str and clear of string streams left the old
 contents or the end state

---
 src/module/io/sstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/module/io/sstream.cpp b/src/module/io/sstream.cpp
index 9a78b3b..8fa9cf2 100644
--- a/src/module/io/sstream.cpp
+++ b/src/module/io/sstream.cpp
@@ -14,6 +14,7 @@ namespace ts {
 
     void StringStreamReader::clear() {
         m_stream.str("");
+        m_stream.clear();
     }
 
     size_t StringStreamReader::read(void *buffer, size_t size) {
@@ -26,6 +27,7 @@ namespace ts {
 
     void StringStreamReader::str(const StringStreamReader::string &buffer) {
         m_stream.str(buffer);
+        m_stream.clear();
     }
 
     StringStreamWriter::string StringStreamWriter::str() const {
@@ -34,6 +36,7 @@ namespace ts {
 
     void StringStreamWriter::clear() {
         m_stream.str("");
+        m_stream.clear();
     }
 
     size_t StringStreamWriter::write(const void *buffer, size_t size) {
@@ -45,7 +48,8 @@ namespace ts {
             : m_stream(buffer) {}
 
     void StringStreamWriter::str(const StringStreamWriter::string &buffer) {
-        m_stream.str();
+        m_stream.str(buffer);
+        m_stream.clear();
     }
 
     StringStream::string StringStream::str() const {
@@ -54,6 +58,7 @@ namespace ts {
 
     void StringStream::clear() {
         m_stream.str("");
+        m_stream.clear();
     }
 
     size_t StringStream::read(void *buffer, size_t size) {
@@ -71,5 +76,6 @@ namespace ts {
 
     void StringStream::str(const StringStream::string &buffer) {
         m_stream.str(buffer);
+        m_stream.clear();
     }
 }
-- 
2.43.0


From aed5c5dd0c8fc779aed4cbfeb7c53e005a179770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 100/159] fix: writing to an encrypted file that is not open
 was reported as done

---
 src/encryption/aes_fstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index c4a6387..486c62f 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -140,6 +140,9 @@ namespace ts {
     }
 
     size_t AESFileStreamWriter::write(const void *buffer, size_t size) {
+        if(!m_stream.is_open()) {
+            return 0;
+        }
 
         size_t nwrite = 0;
         while(nwrite < size ) {
-- 
2.43.0


From a7d585861dc7c6612aed4fb0f63d7b8ddf3df5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 101/159] fix: type_str calls 16-bit integers int16 and uint16,
 not int64 and uint64

---
 include/api/cpp/dtype.h | 4 ++--
 include/core/dtype.h    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/api/cpp/dtype.h b/include/api/cpp/dtype.h
index 226ccfb..b0cfd1b 100644
--- a/include/api/cpp/dtype.h
+++ b/include/api/cpp/dtype.h
@@ -71,8 +71,8 @@ namespace ts {
                 case TS_VOID: return "void";
                 case TS_INT8: return "int8";
                 case TS_UINT8: return "uint8";
-                case TS_INT16: return "int64";
-                case TS_UINT16: return "uint64";
+                case TS_INT16: return "int16";
+                case TS_UINT16: return "uint16";
                 case TS_INT32: return "int32";
                 case TS_UINT32: return "uint32";
                 case TS_INT64: return "int64";
diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From c4f627a6d44f18ec8fc5898e724cea393c37cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 102/159] fix: Workbench::run_hook of the C++ API works with an
 empty list of names

---
 include/api/cpp/workbench.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/api/cpp/workbench.h b/include/api/cpp/workbench.h
index afd87d3..6d0012e 100644
--- a/include/api/cpp/workbench.h
+++ b/include/api/cpp/workbench.h
@@ -191,12 +191,12 @@ namespace ts {
             }
 
             void run_hook(const std::vector<std::string> &node_names) {
-                std::vector<const char *> c_node_names(node_names.size());
+                std::vector<const char *> c_node_names(node_names.size() + 1, nullptr);
                 for (size_t i = 0; i < node_names.size(); ++i) {
                     c_node_names[i] = node_names[i].c_str();
                 }
                 TS_API_AUTO_CHECK(
-                        ts_Workbench_run_hook(m_impl.get(), c_node_names.data(), int32_t(c_node_names.size())));
+                        ts_Workbench_run_hook(m_impl.get(), c_node_names.data(), int32_t(node_names.size())));
             }
 
             static Workbench Load(const Module &module, const Device &device, const std::string &options) {
-- 
2.43.0


From 5ce050efe6aa7b3b6b26988e7e2a4e11f2cc194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 103/159] fix: tensor::save of the C++ API reports a failed
 save

---
 include/api/cpp/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/api/cpp/tensor.h b/include/api/cpp/tensor.h
index 1652221..09eecc0 100644
--- a/include/api/cpp/tensor.h
+++ b/include/api/cpp/tensor.h
@@ -402,11 +402,11 @@ namespace ts {
             }
 
             inline void save(const std::string &path, const Tensor &tensor) {
-                ts_Tensor_save(path.c_str(), tensor.get_raw());
+                TS_API_AUTO_CHECK(ts_Tensor_save(path.c_str(), tensor.get_raw()));
             }
 
             inline void save(const std::string &path, const ts_Tensor *tensor) {
-                ts_Tensor_save(path.c_str(), tensor);
+                TS_API_AUTO_CHECK(ts_Tensor_save(path.c_str(), tensor));
             }
         }
     }
-- 
2.43.0


From 432f53cb0e881106707f88ba4fc8e9c4952ef4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:24 +0000
Subject: [PATCH 104/159] fix: HardMemory keeps no capacity after dispose

---
 src/core/hard_memory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..2615bda 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
-- 
2.43.0


From 66273cf1dcef9a1587ca50bb14212d21996e0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 105/159] fix: tensors of a workbench may be freed in another
 thread while it runs

---
 src/memory/flow.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/memory/flow.cpp b/src/memory/flow.cpp
index 8963013..0d1448c 100644
--- a/src/memory/flow.cpp
+++ b/src/memory/flow.cpp
@@ -11,6 +11,7 @@
 #include "orz/vat.h"
 
 #include <list>
+#include <mutex>
 
 namespace ts {
     class VatMemoryController::Implement {
@@ -19,6 +20,8 @@ namespace ts {
         MemoryDevice m_device;
         HardAllocator::function m_managed_allocator;
         std::shared_ptr<Vat> m_vat;
+        // memories may be freed by other threads than the one using the controller
+        std::shared_ptr<std::mutex> m_mutex;
     };
 
     VatMemoryController::VatMemoryController(const MemoryDevice &device) {
@@ -34,7 +37,10 @@ namespace ts {
         m_impl->m_device = device;
         m_impl->m_vat = std::make_shared<Vat>(pot_allocator);
         auto &vat = m_impl->m_vat;
-        m_impl->m_managed_allocator = [vat](int, size_t new_size, void *mem, size_t mem_size) -> void * {
+        m_impl->m_mutex = std::make_shared<std::mutex>();
+        auto &mutex = m_impl->m_mutex;
+        m_impl->m_managed_allocator = [vat, mutex](int, size_t new_size, void *mem, size_t mem_size) -> void * {
+            std::unique_lock<std::mutex> _locker(*mutex);
             void *new_mem = nullptr;
             if (new_size == 0) {
                 // TS_LOG_DEBUG << "free(" << mem << ")";
@@ -57,6 +63,7 @@ namespace ts {
     }
 
     VatMemoryController::~VatMemoryController() {
+        std::unique_lock<std::mutex> _locker(*m_impl->m_mutex);
         m_impl->m_vat->deprecated();
     }
 
@@ -65,6 +72,7 @@ namespace ts {
     }
 
     uint64_t VatMemoryController::summary() const {
+        std::unique_lock<std::mutex> _locker(*m_impl->m_mutex);
         return m_impl->m_vat->summary();
     }
 
-- 
2.43.0


From ac29670b6c82a4f5a7b4e48eb007382b43e59cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 106/159] fix: a filter step that fails leaves the steps of the
 filter as they were

---
 include/module/graph.h       | 10 ++++++
 src/runtime/image_filter.cpp | 60 ++++++++++++++++++++++++------------
 2 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index 8b9de1d..d0dc834 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -282,6 +282,16 @@ namespace ts {
             return std::move(out_vector);
         }
 
+        /**
+         * drop the nodes made after the first `count` ones
+         */
+        void restore(size_t count) {
+            while (m_nodes.size() > count) {
+                LinkedBubble::Link(m_nodes.back(), std::vector<LinkedBubble::weak>());
+                m_nodes.pop_back();
+            }
+        }
+
     private:
         std::vector<LinkedBubble::shared> m_nodes;
     };
diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..c5b0ec7 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -2,6 +2,7 @@
 // Created by kier on 2019/1/25.
 //
 
+#include <exception>
 #include <runtime/image_filter.h>
 
 #include "runtime/image_filter.h"
@@ -26,6 +27,24 @@ namespace ts {
         bool m_compiled = false;
     };
 
+    /**
+     * Binds the graph while a step is added, and drops the nodes of the step if that fails
+     */
+    class AddStep {
+    public:
+        explicit AddStep(Graph::shared graph)
+            : m_graph(std::move(graph)), m_count(m_graph->nodes().size()), m_bind(m_graph.get()) {}
+
+        ~AddStep() {
+            if (std::uncaught_exception()) m_graph->restore(m_count);
+        }
+
+    private:
+        Graph::shared m_graph;
+        size_t m_count;
+        ctx::bind<Graph> m_bind;
+    };
+
     ImageFilter::ImageFilter() : self(ComputingDevice(CPU)) {
     }
 
@@ -35,10 +54,13 @@ namespace ts {
     }
 
     void ImageFilter::clear() {
+        auto graph = std::make_shared<Graph>();
+        {
+            ctx::bind<Graph> _bind_empty(graph.get());
+            bubble::param("_0", UINT8, {-1, -1, -1});    // add input param to graph
+        }
         m_impl->m_program.reset();
-        m_impl->m_graph = std::make_shared<Graph>();
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
-        bubble::param(serial_name(), UINT8, {-1, -1, -1});    // add input param to graph
+        m_impl->m_graph = graph;
         m_impl->m_compiled = false;
     }
 
@@ -107,7 +129,7 @@ namespace ts {
     }
 
     void ImageFilter::to_float() {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto top = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::to_float(), {top});
         (void)(node);
@@ -115,7 +137,7 @@ namespace ts {
     }
 
     void ImageFilter::scale(float f) {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto lhs = m_impl->m_graph->nodes().back();
         auto rhs = bubble::data(serial_name(), tensor::build(FLOAT32, f));
         auto node = bubble::op(serial_name(), name::layer::mul(), {lhs, rhs});
@@ -125,7 +147,7 @@ namespace ts {
 
     void ImageFilter::sub_mean(const std::vector<float> &mean) {
         auto mean_tensor = tensor::build(FLOAT32, {1, 1, 1, int(mean.size())}, mean);
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto lhs = m_impl->m_graph->nodes().back();
         auto rhs = bubble::data(serial_name(), mean_tensor);
         auto node = bubble::op(serial_name(), name::layer::sub(), {lhs, rhs});
@@ -140,7 +162,7 @@ namespace ts {
         for (int i = 0; i < count; ++i) {
             std_data[i] = 1.0f / std_data[i];
         }
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto lhs = m_impl->m_graph->nodes().back();
         auto rhs = bubble::data(serial_name(), std_tensor);
         auto node = bubble::op(serial_name(), name::layer::mul(), {lhs, rhs});
@@ -150,7 +172,7 @@ namespace ts {
 
     void ImageFilter::resize(int width, int height, ResizeMethod method) {
         auto size_tensor = tensor::build(INT32, {-1, height, width, -1});
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto size = bubble::data(serial_name(), size_tensor);;
         auto node = bubble::op(serial_name(), name::layer::resize2d(), {x, size});
@@ -161,7 +183,7 @@ namespace ts {
 
     void ImageFilter::resize(int shot_size, ResizeMethod method) {
         auto size_tensor = tensor::build(INT32, {shot_size});
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::nhwc_scale_resize2d(), {x});
         node->set(name::size, size_tensor);
@@ -173,7 +195,7 @@ namespace ts {
     void ImageFilter::channel_swap(const std::vector<int> &shuffle) {
         auto shuffle_tensor = tensor::build(INT32, shuffle);
         auto dim_tensor = tensor::build(INT32, {3, });
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::dimshuffle(), {x});
         node->set(name::dim, dim_tensor);
@@ -183,7 +205,7 @@ namespace ts {
 
     void ImageFilter::to_chw() {
         auto permute_tensor = tensor::build(INT32, {0, 3, 1, 2});
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::transpose(), {x});
         node->set(name::permute, permute_tensor);
@@ -191,7 +213,7 @@ namespace ts {
     }
 
     void ImageFilter::center_crop(int width, int height) {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::nhwc_center_crop2d(), {x});
         node->set(name::size, tensor::build(INT32, {width, height}));  // set resize method
@@ -221,7 +243,7 @@ namespace ts {
     }
 
     void ImageFilter::prewhiten() {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::prewhiten(), {x});
         m_impl->m_compiled = false;
@@ -238,7 +260,7 @@ namespace ts {
     }
 
     void ImageFilter::letterbox(int width, int height, float outer_value, ResizeMethod method) {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::nhwc_letterbox(), {x});
         node->set(name::size, tensor::build(INT32, {width, height}));
@@ -249,7 +271,7 @@ namespace ts {
     }
 
     void ImageFilter::divided(int width, int height, float padding_value) {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto x = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::divided(), {x});
         node->set(name::size, tensor::build(INT32, {1, height, width, 1}));
@@ -259,7 +281,7 @@ namespace ts {
     }
 
     void ImageFilter::force_color() {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto top = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::force_color(), {top});
         (void)(node);
@@ -267,7 +289,7 @@ namespace ts {
     }
 
     void ImageFilter::force_gray() {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto top = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::force_gray(), {top});
         (void)(node);
@@ -276,7 +298,7 @@ namespace ts {
 
     void ImageFilter::force_gray(const std::vector<float> &scale) {
         auto scale_tensor = tensor::build(FLOAT32, {int32_t(scale.size())}, scale);
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto top = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::force_gray(), {top});
         node->set(name::scale, scale_tensor);
@@ -284,7 +306,7 @@ namespace ts {
     }
 
     void ImageFilter::norm_image(float epsilon) {
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
+        AddStep _step(m_impl->m_graph);
         auto top = m_impl->m_graph->nodes().back();
         auto node = bubble::op(serial_name(), name::layer::norm_image(), {top});
         node->set(name::epsilon, tensor::from<float>(epsilon));
-- 
2.43.0


From 48d53f26ad1c819c23ae2d226e0b2a3fa93f3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 107/159] fix: a size change of HardMemory that fails does not
 free its memory twice

---
 src/core/hard_memory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index 2615bda..93a1d5d 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -65,7 +65,11 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            // the allocator frees the old memory also if there is none for the new size
+            auto data = m_data;
+            m_data = nullptr;
+            m_capacity = 0;
+            m_data = m_allocator(m_device.id(), size, data, 0);
             m_capacity = size;
         }
     }
-- 
2.43.0


From 7cdeb34c643a1f2d1621f2c80140afc2b6b14203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 108/159] fix: roi_align and proposal announce the sizes their
 parameters give

---
 src/kernels/cpu/proposal.cpp  | 1 +
 src/kernels/cpu/roi_align.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/kernels/cpu/proposal.cpp b/src/kernels/cpu/proposal.cpp
index e6166a6..dec1ce7 100644
--- a/src/kernels/cpu/proposal.cpp
+++ b/src/kernels/cpu/proposal.cpp
@@ -24,6 +24,7 @@ namespace ts {
             int m_output_size;
 
             void init() override {
+                base::Proposal::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &ws);
                 auto max_level = tensor::to_int(get("max_level"));
diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index b609fd9..9185ebe 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -23,6 +23,7 @@ namespace ts {
             std::shared_ptr<dragon::ROIAlignOp<dragon::CPUContext>> m_dragon;
 
             void init() override {
+                base::ROIAlign::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &ws);
             }
-- 
2.43.0


From e40c329282a7e893ce0e4dfe9e88decb63a619d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:23 +0000
Subject: [PATCH 109/159] fix: crop_nd announces the size of dimensions it
 keeps

---
 src/backend/zoo/crop_nd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..755e7e8 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -47,6 +47,11 @@ namespace ts {
             auto &size = stack[1];
             auto shape = tensor::array::to_int(size);
 
+            TS_AUTO_CHECK(shape.size() == size_t(x.dims()));
+            for (size_t i = 0; i < shape.size(); ++i) {
+                if (shape[i] <= 0) shape[i] = x.size(i);
+            }
+
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), shape);
 
-- 
2.43.0


From 40098bb250d43d6833cbb13c98d315ed2ac3321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 110/159] fix: shape inference of convolutions with open
 kernels, missing paddings and dialations

---
 src/runtime/inferer/factory.cpp | 45 ++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 7664bd6..702f86b 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -163,6 +163,11 @@ namespace ts {
 
         TS_STATIC_ACTION(ShapeInferer::Register, "crop_nd", crop_nd)
 
+        static std::vector<int32_t> get_dilation(const Node &node) {
+            if (!node->has("dilation") && node->has("dialations")) return node->get_int_list("dialations");
+            return node->get_int_list("dilation");
+        }
+
         static int32_t conv2d_forward(int32_t x, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
             return int32_t(std::floor((x + padding - (dilation * (kernel - 1) + 1)) / stride + 1));
         }
@@ -171,7 +176,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
             auto padding = node->get_int_list("padding");
 
             std::vector<int32_t> kernel_dims;
@@ -198,7 +203,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -549,7 +554,7 @@ namespace ts {
             auto padding = tensor::array::to_int(padding_value);
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
 
             std::vector<int32_t> kernel_dims;
             int32_t channel_dims;
@@ -575,7 +580,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1058,7 +1063,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
             auto padding = node->get_int_list("padding");
 
             std::vector<int32_t> kernel_dims;
@@ -1085,7 +1090,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1133,7 +1138,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1154,6 +1159,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto padding_value = get_value(node.input(1));
+            if (padding_value.empty()) return VOID;
             auto padding = tensor::array::to_int(padding_value);
 
             std::vector<int32_t> stide = {1, 1, 1, 1};
@@ -1183,7 +1189,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1209,7 +1215,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
             auto padding = node->get_int_list("padding");
 
             std::vector<int32_t> kernel_dims;
@@ -1236,7 +1242,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1257,7 +1263,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
             auto padding = node->get_int_list("padding");
 
             std::vector<int32_t> kernel_dims;
@@ -1278,13 +1284,14 @@ namespace ts {
 
             std::vector<int32_t> y_shape(4);
             y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0) * x.size(channel_dims);
+            y_shape[channel_dims] = w.size(0) < 0 || x.size(channel_dims) < 0
+                                    ? -1 : w.size(0) * x.size(channel_dims);
 
             int32_t kernel_shape[] = {w.size(2), w.size(3)};
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1305,10 +1312,11 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto padding_value = get_value(node.input(1));
+            if (padding_value.empty()) return VOID;
             auto padding = tensor::array::to_int(padding_value);
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
 
             std::vector<int32_t> kernel_dims;
             int32_t channel_dims;
@@ -1328,13 +1336,14 @@ namespace ts {
 
             std::vector<int32_t> y_shape(4);
             y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0) * x.size(channel_dims);
+            y_shape[channel_dims] = w.size(0) < 0 || x.size(channel_dims) < 0
+                                    ? -1 : w.size(0) * x.size(channel_dims);
 
             int32_t kernel_shape[] = {w.size(2), w.size(3)};
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
@@ -1505,7 +1514,7 @@ namespace ts {
             auto format = node->get_string("format");
 
             auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
+            auto dilation = get_dilation(node);
             auto padding = node->get_int_list("padding");
 
             std::vector<int32_t> kernel_dims;
@@ -1532,7 +1541,7 @@ namespace ts {
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
+                if (x.size(dim) < 0 || kernel_shape[i] < 0) {
                     y_shape[dim] = -1;
                     continue;
                 }
-- 
2.43.0


From aad0b863958a9509c79e7bf03497caee837faad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 111/159] fix: shape inference of elementwise operators gives
 the dtype inputs are cast to

---
 include/backend/base/element_wise_reduce.h |  5 +++++
 src/backend/base/element_wise_reduce.cpp   | 18 +++++++++++-------
 src/runtime/inferer/factory.cpp            |  4 +++-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/backend/base/element_wise_reduce.h b/include/backend/base/element_wise_reduce.h
index 10855c4..174a616 100644
--- a/include/backend/base/element_wise_reduce.h
+++ b/include/backend/base/element_wise_reduce.h
@@ -16,6 +16,11 @@ namespace ts {
 
         ElementWiseReduce() = default;  // tell me the operator memory
 
+        /**
+         * @return dtype of the result of lhs and rhs, VOID if there is none
+         */
+        static DTYPE upcast(DTYPE lhs_dtype, DTYPE rhs_dtype);
+
         void init() override;
 
         int run(Stack &stack) override;
diff --git a/src/backend/base/element_wise_reduce.cpp b/src/backend/base/element_wise_reduce.cpp
index 12ebfe8..693d93e 100644
--- a/src/backend/base/element_wise_reduce.cpp
+++ b/src/backend/base/element_wise_reduce.cpp
@@ -78,15 +78,10 @@ namespace ts {
         else return false;
     }
 
-    DTYPE upcast_dtype(Operator *op, Tensor &lhs, Tensor &rhs) {
-        DTYPE lhs_dtype = lhs.dtype();
-        DTYPE rhs_dtype = rhs.dtype();
+    DTYPE ElementWiseReduce::upcast(DTYPE lhs_dtype, DTYPE rhs_dtype) {
         if (lhs_dtype == rhs_dtype) return lhs_dtype;
         else if (uncorr_cast_dtype(lhs_dtype) || uncorr_cast_dtype(rhs_dtype)) {
-            TS_LOG_ERROR << "[" << op->op() << ":" << op->name() << "] Can not reduce mismatch type: "
-                         << type_str(lhs.dtype()) << " vs. "
-                         << type_str(rhs.dtype()) << eject;
-            return static_cast<DTYPE>(0);
+            return VOID;
         } else {
             static const char lookup_table[22][22]{
                     {0, 0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, 0,  0,  0,  0, 0, 0, 0, 0, 0},
@@ -116,6 +111,15 @@ namespace ts {
         }
     }
 
+    DTYPE upcast_dtype(Operator *op, Tensor &lhs, Tensor &rhs) {
+        if (lhs.dtype() != rhs.dtype() && (uncorr_cast_dtype(lhs.dtype()) || uncorr_cast_dtype(rhs.dtype()))) {
+            TS_LOG_ERROR << "[" << op->op() << ":" << op->name() << "] Can not reduce mismatch type: "
+                         << type_str(lhs.dtype()) << " vs. "
+                         << type_str(rhs.dtype()) << eject;
+        }
+        return ElementWiseReduce::upcast(lhs.dtype(), rhs.dtype());
+    }
+
     int ElementWiseReduce::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
         TS_AUTO_CHECK(stack.size() == 2);
 
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 702f86b..7c703bb 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -6,6 +6,7 @@
 #include "global/shape_inferer_factory.h"
 #include "utils/static.h"
 #include "backend/name.h"
+#include "backend/base/element_wise_reduce.h"
 
 #include "runtime/inferer.h"
 
@@ -296,7 +297,8 @@ namespace ts {
         }
 
         static TensorPrototype _eltwise(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto dtype = inputs[0].dtype();
+            auto dtype = ElementWiseReduce::upcast(inputs[0].dtype(), inputs[1].dtype());
+            if (dtype == VOID) return VOID;
 
             auto lhs_shape = inputs[0].sizes();
             auto rhs_shape = inputs[1].sizes();
-- 
2.43.0


From fb4c73e94281839bc0a6dd9dab81cd49c6a76527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 112/159] fix: shape inference of reshaping operators: open
 sizes, default permutation, squeeze

---
 src/runtime/inferer/factory.cpp | 50 ++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 7c703bb..44d06c9 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -116,11 +116,10 @@ namespace ts {
                 permute = node->get_int_list("permute");
             } else {
                 if (x.dims() < 2) return x;
-                std::vector<int32_t> tmp;
                 for (size_t i = 0; i < x.dims(); ++i) {
-                    tmp.push_back(int32_t(i));
+                    permute.push_back(int32_t(i));
                 }
-                std::swap(tmp[tmp.size() - 1], tmp[tmp.size() - 2]);
+                std::swap(permute[permute.size() - 1], permute[permute.size() - 2]);
             }
 
             auto x_shape = x.sizes();
@@ -130,7 +129,7 @@ namespace ts {
             auto y_shape = std::vector<int32_t>(permute.size());
 
             for (size_t i = 0; i < permute.size(); ++i) {
-                if (permute[i] >= x_shape.size()) return VOID;
+                if (permute[i] < 0 || permute[i] >= int32_t(x_shape.size())) return VOID;
                 y_shape[i] = x_shape[permute[i]];
             }
 
@@ -324,6 +323,18 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "mul", _eltwise)
         TS_STATIC_ACTION(ShapeInferer::Register, "div", _eltwise)
 
+        // number of elements, -1 if any size is open
+        static int32_t count_sizes(Shape::const_iterator begin, Shape::const_iterator end) {
+            int32_t count = 1;
+            bool open = false;
+            for (auto it = begin; it != end; ++it) {
+                if (*it == 0) return 0;
+                if (*it < 0) open = true;
+                else count *= *it;
+            }
+            return open ? -1 : count;
+        }
+
         static TensorPrototype flatten(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
@@ -337,7 +348,7 @@ namespace ts {
             if (need_size < x_size) {
                 auto &size = x.sizes();
                 std::vector<int> shape(size.begin(), size.begin() + need_size);
-                shape.back() = std::accumulate(size.begin() + dim, size.end(), 1, std::multiplies<int>());
+                shape.back() = count_sizes(size.begin() + dim, size.end());
                 y_shape = std::move(shape);
             } else if (need_size > x_size) {
                 std::vector<int> ones(need_size - x_size, 1);
@@ -363,12 +374,12 @@ namespace ts {
             std::vector<int> y_shape;
 
             if (dim <= 0) {
-                y_shape = {1, std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>())};
-            } else if (dim >= x.dims()) {
-                y_shape = {std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>()), 1};
+                y_shape = {1, count_sizes(size.begin(), size.end())};
+            } else if (dim >= int32_t(x.dims())) {
+                y_shape = {count_sizes(size.begin(), size.end()), 1};
             } else {
-                y_shape = {std::accumulate(size.begin(), size.begin() + dim, 1, std::multiplies<int>()),
-                           std::accumulate(size.begin() +  dim, size.end(), 1, std::multiplies<int>())};
+                y_shape = {count_sizes(size.begin(), size.begin() + dim),
+                           count_sizes(size.begin() +  dim, size.end())};
             }
 
             return {x.dtype(), y_shape};
@@ -633,7 +644,7 @@ namespace ts {
 
             for (size_t i = 1; i < inputs.size(); ++i) {
                 auto inc = inputs[i].size(dim);
-                if (inc < 0) {
+                if (shape[dim] < 0 || inc < 0) {
                     shape[dim] = -1;
                     break;
                 }
@@ -872,7 +883,8 @@ namespace ts {
             {
                 auto &update_node = *const_cast<Node*>(&node);
                 auto shape = inputs[0].sizes();
-                update_node->set("#value", tensor::build<int32_t>(INT32, shape));
+                auto open = std::any_of(shape.begin(), shape.end(), [](int32_t size) { return size < 0; });
+                if (!open) update_node->set("#value", tensor::build<int32_t>(INT32, shape));
             }
             return {INT32, {int32_t(inputs[0].dims())}};
         }
@@ -1039,10 +1051,11 @@ namespace ts {
             auto &x = inputs[0];
 
             auto chunks = node->get_int("chunks");
-            auto dim = node->get_int("dim");
+            auto dim = node->has("dim") ? node->get_int("dim") : -2;
 
             if (dim < 0) dim += int32_t(x.dims());
             if (dim < 0 || dim >= int32_t(x.dims())) return VOID;
+            if (x.size(dim) < 0) return VOID;
 
             auto bins = split_bins(0, x.size(dim), chunks);
 
@@ -1813,14 +1826,15 @@ namespace ts {
         static TensorPrototype squeeze(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
-            GET_NODE_INT_LIST_ATTR(axes)
+            TRY_GET_NODE_INT_LIST_ATTR(axes)
 
             auto y_shape = x.sizes();
 
             if (axes.empty()) {
-                for (auto it = axes.begin(); it != axes.end(); ) {
+                for (auto it = y_shape.begin(); it != y_shape.end(); ) {
+                    if (*it < 0) return VOID;
                     if (*it == 1) {
-                        it = axes.erase(it);
+                        it = y_shape.erase(it);
                     } else {
                         ++it;
                     }
@@ -1828,7 +1842,9 @@ namespace ts {
             } else {
                 for (auto it = axes.rbegin(); it != axes.rend(); ++it) {
                     auto axis = *it;
-                    FIX_DIM(axis, x)
+                    auto dims = int32_t(y_shape.size());
+                    if (axis < 0) axis += dims;
+                    if (axis < 0 || axis >= dims) return VOID;
                     y_shape.erase(y_shape.begin() + axis);
                 }
             }
-- 
2.43.0


From 0eaf472780af4cfad68837288183bc7c7fb777a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 113/159] fix: shape inference of _expand follows the limits of
 front and end

---
 src/runtime/inferer/factory.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 44d06c9..ee128ec 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -710,8 +710,8 @@ namespace ts {
 
             auto dims = size_t(tensor::to_int(dims_value));
 
-            auto front = int32_t(dims);
-            auto end = int32_t(dims);
+            auto front = -1;
+            auto end = -1;
             bool inverse = false;
             if (node->has("front")) front = node->get_int("front");
             if (node->has("end")) end = node->get_int("end");
@@ -719,22 +719,24 @@ namespace ts {
 
             auto y = x.sizes();
 
+            // insert at most front or end ones, no limit if less than zero
+            auto expand_front = [&]() {
+                for (auto limit = front; y.size() < dims && limit != 0; --limit) y.insert(y.begin(), 1);
+            };
+            auto expand_end = [&]() {
+                for (auto limit = end; y.size() < dims && limit != 0; --limit) y.insert(y.end(), 1);
+            };
+
             if (!inverse) {
-                while (y.size() < dims && front > 0) {
-                    y.insert(y.begin(), 1);
-                }
-                while (y.size() < dims && end > 0) {
-                    y.insert(y.end(), 1);
-                }
+                expand_front();
+                expand_end();
             } else {
-                while (y.size() < dims && end > 0) {
-                    y.insert(y.end(), 1);
-                }
-                while (y.size() < dims && front > 0) {
-                    y.insert(y.begin(), 1);
-                }
+                expand_end();
+                expand_front();
             }
 
+            if (y.size() != dims) return VOID;
+
             return {x.dtype(), y};
         }
 
-- 
2.43.0


From e4d4dfe65523c515e9c17387703bcca171018e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 114/159] fix: shape inference of operators with default
 parameters, data dependent and open sizes

---
 src/runtime/inferer/factory.cpp | 85 +++++++++++++++------------------
 1 file changed, 38 insertions(+), 47 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index ee128ec..a534d02 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -477,7 +477,7 @@ namespace ts {
                 param0_shape[dim] = x.size(size_t(dim));
             }
 
-            if (param0_shape[channel_dim] < 0) {
+            if (x.size(size_t(channel_dim)) < 0) {
                 return VOID;
             }
             param0_shape[channel_dim] = x.size(size_t(channel_dim));
@@ -620,8 +620,8 @@ namespace ts {
             auto B = inputs[1];
 
 
-            auto transA = node->get_bool("transA");
-            auto transB = node->get_bool("transB");
+            auto transA = node->has("transA") && node->get_bool("transA");
+            auto transB = node->has("transB") && node->get_bool("transB");
 
             auto M = transA ? A.size(1) : A.size(0);
             auto N = transB ? B.size(0) : B.size(1);
@@ -834,7 +834,10 @@ namespace ts {
                 auto H = y_shape[1];
                 auto W = y_shape[2];
 
-                if (H > W) {
+                if (H < 0 || W < 0) {
+                    y_shape[1] = -1;
+                    y_shape[2] = -1;
+                } else if (H > W) {
                     y_shape[1] = S * H / W;
                     y_shape[2] = S;
                 } else {
@@ -1397,6 +1400,7 @@ namespace ts {
 
             for (size_t i = 0; i < x.dims(); ++i) {
                 if (size[i] == 1) continue;
+                if (y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(std::ceil(float(y_shape[i]) / size[i])) * size[i];
             }
 
@@ -1460,7 +1464,8 @@ namespace ts {
 
             auto &indices_shape = indices.sizes();
             auto input_shape = x.sizes();
-            if (indices_shape[indices_shape.size() - 1] > input_shape.size()) return VOID;
+            if (indices_shape.back() < 0) return VOID;
+            if (indices_shape.back() > int32_t(input_shape.size())) return VOID;
 
             output_shape.insert(output_shape.end(), input_shape.begin() + indices_shape[indices_shape.size() - 1],
                                 input_shape.end());
@@ -1483,7 +1488,7 @@ namespace ts {
                 auto dims = int32_t(x.dims());
 
                 auto axes = node->get_int_list(axes_attr_name);
-                auto keep_axes = node->get_bool(keep_axes_attr_name);
+                auto keep_axes = !node->has(keep_axes_attr_name) || node->get_int(keep_axes_attr_name) != 0;
 
                 for (auto &axis : axes) {
                     if (axis < 0) axis += dims;
@@ -1516,9 +1521,8 @@ namespace ts {
 
             auto max_output_size = node->get_int("max_output_size");
 
-            auto K = std::min(scores.size(0), max_output_size);
-
-            return {INT32, {K,}};
+            // indices not used are filled with -1
+            return {INT32, {max_output_size,}};
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "non_max_suppression_v3", non_max_suppression_v3)
@@ -1644,12 +1648,12 @@ namespace ts {
             TYR_GET_NODE_INT_ATTR(max_level, 5)
             TYR_GET_NODE_INT_ATTR(post_nms_top_n, 300)
 
-            auto num_images = x.size(0);
             auto output_size = max_level - min_level + 1;
 
             std::vector<Tensor::Prototype> output;
             for (int i = 0; i < output_size; ++i) {
-                Shape tmp = {num_images > 0 ? num_images * post_nms_top_n : -1, 5};
+                // number of proposals depends on scores
+                Shape tmp = {-1, 5};
                 output.emplace_back(dtype, tmp);
             }
 
@@ -1802,7 +1806,7 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "sample2d", sample2d)
 
         static TensorPrototype shape_index_patch(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            if (inputs.size() != 1) return VOID;
+            if (inputs.size() != 2) return VOID;
             auto &x = inputs[0];
             auto &pos = inputs[1];
 
@@ -1815,10 +1819,10 @@ namespace ts {
             GET_NODE_INT_LIST_ATTR(origin_patch)
             GET_NODE_INT_LIST_ATTR(origin)
 
-            auto x_patch_h = int(origin_patch[0] * height / float(origin[0]) + 0.5f);
-            auto x_patch_w = int(origin_patch[1] * width / float(origin[1]) + 0.5f);
+            auto x_patch_h = height < 0 ? -1 : int(origin_patch[0] * height / float(origin[0]) + 0.5f);
+            auto x_patch_w = width < 0 ? -1 : int(origin_patch[1] * width / float(origin[1]) + 0.5f);
 
-            Shape y_shape = {number, channels, x_patch_h, landmarkx2 / 2, x_patch_w};
+            Shape y_shape = {number, channels, x_patch_h, landmarkx2 < 0 ? -1 : landmarkx2 / 2, x_patch_w};
 
             return {x.dtype(), y_shape};
         }
@@ -1947,8 +1951,7 @@ namespace ts {
                 y = Tensor::Prototype(x.dtype(), x.sizes());
                 index = Tensor::Prototype(INT32, x.sizes());
             } else {
-                auto K = std::min(x.sizes().back(), number);
-                if (K < 0) K = number;
+                auto K = x.sizes().back() < 0 ? -1 : std::min(x.sizes().back(), number);
                 auto y_shape = x.sizes();
                 y_shape.back() = K;
                 y = Tensor::Prototype(x.dtype(), y_shape);
@@ -2000,7 +2003,7 @@ namespace ts {
             auto &yolo = inputs.back();
 
             auto N = yolo.size(0);
-            if (N < 0) N = 1;
+            if (N < 0) return VOID;
 
             std::vector<Tensor::Prototype> outputs(N, Tensor::Prototype(FLOAT32, {-1, 6}));
 
@@ -2024,16 +2027,11 @@ namespace ts {
 
             auto y_shape = x.sizes();
             for (size_t i = 0; i < size.size(); ++i) {
-                if (y_shape[i] < 0) {
+                if (size[i] >= 0) {
                     y_shape[i] = size[i];
-                    continue;
+                } else if (y_shape[i] >= 0) {
+                    y_shape[i] = std::max(0, y_shape[i] - begin[i]);
                 }
-                if (begin[i] >= y_shape[i]) {
-                    y_shape[i] = 0;
-                    continue;
-                }
-                auto right = std::min(y_shape[i], begin[i] + size[i]);
-                y_shape[i] = right - begin[i];
             }
 
             return {x.dtype(), y_shape};
@@ -2044,7 +2042,8 @@ namespace ts {
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
             // begin \in [0, x)
             // end \in [-1, x]
-            if (x >= 0) {
+            if (x < 0) return -1;
+            {
                 if (begin_flag) {
                     begin = stride > 0 ? 0 : x - 1;
                 } else {
@@ -2113,6 +2112,7 @@ namespace ts {
 
             for (size_t i = 0; i < N; ++i) {
                 auto dim = axes[i];
+                FIX_DIM(dim, x)
 
                 y_shape[dim] = infer_output(
                         y_shape[dim],
@@ -2281,6 +2281,7 @@ namespace ts {
 
             auto y_shape = x.sizes();
             for (size_t i = 0; i < y_shape.size(); ++i) {
+                if (y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(float(x.size(i)) * scale[i]);
             }
 
@@ -2302,16 +2303,11 @@ namespace ts {
 
             auto y_shape = x.sizes();
             for (size_t i = 0; i < size.size(); ++i) {
-                if (y_shape[i] < 0) {
+                if (size[i] >= 0) {
                     y_shape[i] = size[i];
-                    continue;
-                }
-                if (begin[i] >= y_shape[i]) {
-                    y_shape[i] = 0;
-                    continue;
+                } else if (y_shape[i] >= 0) {
+                    y_shape[i] = std::max(0, y_shape[i] - begin[i]);
                 }
-                auto right = std::min(y_shape[i], begin[i] + size[i]);
-                y_shape[i] = right - begin[i];
             }
 
             return {x.dtype(), y_shape};
@@ -2372,16 +2368,7 @@ namespace ts {
             auto out_shape = std::vector<int32_t>(dims, -1);
 
             for (size_t i = 0; i < dims; ++i) {
-                int size = cond_shape[i];
-                if (!(cond_shape[i] == lhs_shape[i] && cond_shape[i] == rhs_shape[i])) {
-                    // exception condition
-                    if ((cond_shape[i] != 1 && lhs_shape[i] != 1 && cond_shape[i] != lhs_shape[i]) ||
-                        (cond_shape[i] != 1 && rhs_shape[i] != 1 && cond_shape[i] != rhs_shape[i]) ||
-                        (lhs_shape[i] != 1 && rhs_shape[i] != 1 && lhs_shape[i] != rhs_shape[i])) {
-                        return VOID;
-                    }
-                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
-                }
+                int size = eltwise_infer_dim(eltwise_infer_dim(cond_shape[i], lhs_shape[i]), rhs_shape[i]);
                 out_shape[i] = size;
             }
 
@@ -2394,11 +2381,15 @@ namespace ts {
         static TensorPrototype constant_of_shape(const Node &node, const std::vector<TensorPrototype> &inputs) {
             if (inputs.size() != 1) return VOID;
 
+            auto shape_value = get_value(node.input(0));
+            if (shape_value.empty()) return VOID;
+            auto shape = tensor::array::to_int(shape_value);
+
             if (node->has("value")) {
                 auto val_attr = node->get("value");
-                return {val_attr.dtype(), inputs[0].sizes()};
+                return {val_attr.dtype(), shape};
             } else {
-                return {FLOAT32, inputs[0].sizes()};
+                return {FLOAT32, shape};
             }
         }
 
-- 
2.43.0


From 4e1d69c0dbaf1a777b3ee1dffaa4021d060b82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:19 +0000
Subject: [PATCH 115/159] fix: shape inference of scalars of _dims, defaults of
 gather, stack and winograd, 64 bit slices

---
 src/runtime/inferer/factory.cpp | 57 ++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index a534d02..278d203 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -29,6 +29,16 @@ namespace ts {
             return Tensor();
         }
 
+        // values out of range of int32 are the nearest value in it, as slice operators do
+        static std::vector<int32_t> saturate_int(const Tensor &tensor) {
+            auto values = tensor::array::to_long(tensor);
+            std::vector<int32_t> result(values.size());
+            for (size_t i = 0; i < values.size(); ++i) {
+                result[i] = int32_t(std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, values[i])));
+            }
+            return result;
+        }
+
         static Tensor try_run(const Node &node, const std::vector<Tensor> &inputs) {
             if (node->op() == Bubble::Const) {
                 return node->get("value");
@@ -694,7 +704,7 @@ namespace ts {
             {
                 auto &update_node = *const_cast<Node*>(&node);
                 auto dims = inputs[0].dims();
-                update_node->set("#value", tensor::build<int32_t>(INT32, int32_t(dims)));
+                update_node->set("#value", tensor::build<int32_t>(INT32, Shape(), {int32_t(dims)}));
             }
 
             return {INT32, Shape()};
@@ -1438,7 +1448,7 @@ namespace ts {
             auto &indices = inputs[1].sizes();
             auto dims = int32_t(x.dims());
 
-            auto axis = node->get_int("axis");
+            auto axis = node->has("axis") ? node->get_int("axis") : 0;
 
             if (axis < 0) axis += dims;
             if (axis < 0 || axis >= dims) return VOID;
@@ -1582,7 +1592,8 @@ namespace ts {
         static TensorPrototype winograd_transform_kernel(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
-            auto winograd_mode_str = node->get_string("winograd_mode");
+            std::string winograd_mode_str = "winograd_f63";
+            if (node->has("winograd_mode")) winograd_mode_str = node->get_string("winograd_mode");
 
             enum WINOGRAD_MODE {
                 F6X6_3X3 = 0,
@@ -1735,6 +1746,25 @@ namespace ts {
         } \
     }
 
+#define GET_NODE_SLICE_INPUT(var, i) \
+    std::vector<int32_t> var; \
+    { \
+        if (size_t(i) >= node.inputs().size()) return VOID; \
+        auto tmp = get_value(node.input(i)); \
+        if (tmp.empty()) return VOID; \
+        var = saturate_int(tmp); \
+    }
+
+#define TRY_GET_NODE_SLICE_INPUT(var, i) \
+    std::vector<int32_t> var; \
+    { \
+        if (size_t(i) < node.inputs().size()) { \
+            auto tmp = get_value(node.input(i)); \
+            if (tmp.empty()) return VOID; \
+            var = saturate_int(tmp); \
+        } \
+    }
+
 #define TRY_GET_NODE_FLOAT_LIST_INPUT(var, i) \
     std::vector<float> var; \
     { \
@@ -1888,9 +1918,11 @@ namespace ts {
             if (inputs.empty()) return VOID;
             auto &x = inputs[0];
 
-            GET_NODE_INT_ATTR(axis)
+            TRY_GET_NODE_INT_ATTR(axis, 0)
 
             auto y_shape = x.sizes();
+            auto max_axis = int32_t(y_shape.size());
+            if (axis > max_axis || axis < -max_axis - 1) return VOID;
 
             if (axis >= 0) {
                 y_shape.insert(y_shape.begin() + axis, int32_t(inputs.size()));
@@ -2019,8 +2051,9 @@ namespace ts {
 
             auto &x = inputs[0];
 
-            GET_NODE_INT_LIST_ATTR(begin)
-            GET_NODE_INT_LIST_ATTR(size)
+            if (!node->has("begin") || !node->has("size")) return VOID;
+            auto begin = saturate_int(node->get("begin"));
+            auto size = saturate_int(node->get("size"));
 
             if (begin.size() > x.dims()) return VOID;
             if (begin.size() != size.size()) return VOID;
@@ -2086,10 +2119,10 @@ namespace ts {
 
             auto &x = inputs[0];
 
-            GET_NODE_INT_LIST_INPUT(starts, 1)
-            GET_NODE_INT_LIST_INPUT(ends, 2)
-            TRY_GET_NODE_INT_LIST_INPUT(axes, 3)
-            TRY_GET_NODE_INT_LIST_INPUT(steps, 4)
+            GET_NODE_SLICE_INPUT(starts, 1)
+            GET_NODE_SLICE_INPUT(ends, 2)
+            TRY_GET_NODE_SLICE_INPUT(axes, 3)
+            TRY_GET_NODE_SLICE_INPUT(steps, 4)
 
             if (starts.size() != ends.size()) return VOID;
 
@@ -2295,8 +2328,8 @@ namespace ts {
 
             auto &x = inputs[0];
 
-            TRY_GET_NODE_INT_LIST_INPUT(begin, 1)
-            TRY_GET_NODE_INT_LIST_INPUT(size, 2)
+            TRY_GET_NODE_SLICE_INPUT(begin, 1)
+            TRY_GET_NODE_SLICE_INPUT(size, 2)
 
             if (begin.size() > x.dims()) return VOID;
             if (begin.size() != size.size()) return VOID;
-- 
2.43.0


From f75645e3ad66733ee5554cf0907553707bcf049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:31 +0000
Subject: [PATCH 116/159] fix: dcn_v2_forward without runtime fails instead of
 crashing

---
 src/kernels/cpu/dcn/utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/dcn/utils.h b/src/kernels/cpu/dcn/utils.h
index 1077fb8..c543245 100644
--- a/src/kernels/cpu/dcn/utils.h
+++ b/src/kernels/cpu/dcn/utils.h
@@ -57,7 +57,11 @@ namespace ts {
 
 
             inline void *CPUMalloc(const MemoryDevice &device, size_t size, SyncMemory &buffer) {
-                buffer = RuntimeContext::FlowMemory()->alloc(device, size);
+                auto flow = RuntimeContext::FlowMemory();
+                if (flow == nullptr) {
+                    throw Exception(std::string("Not flow binding in context: <") + typeid(RuntimeContext).name() + ">");
+                }
+                buffer = flow->alloc(device, size);
                 return buffer.data();
             }
 
-- 
2.43.0


From 7006799718ad56cc46be631f7b965aef677905cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:27 +0000
Subject: [PATCH 117/159] fix: conv2d_winograd takes kernels transformed ahead
 and follows a kernel that changes between runs

---
 include/backend/base/base_conv2d_winograd.h |  3 ++-
 src/backend/base/base_conv2d_winograd.cpp   | 27 ++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/backend/base/base_conv2d_winograd.h b/include/backend/base/base_conv2d_winograd.h
index 30f9ddb..d6d0a0c 100644
--- a/include/backend/base/base_conv2d_winograd.h
+++ b/include/backend/base/base_conv2d_winograd.h
@@ -33,7 +33,8 @@ namespace ts{
             Conv2DFormat m_format;
             std::valarray<int> m_padding4x2;
             float m_padding_value;
-            bool m_kernel_transformed;
+            bool m_kernel_transformed = false;   ///< if the given kernel was already transformed
+            Tensor m_kernel;                     ///< the kernel m_k_transformed was made from
             Tensor m_k_transformed;
         };
     }
diff --git a/src/backend/base/base_conv2d_winograd.cpp b/src/backend/base/base_conv2d_winograd.cpp
index bcc34b0..88a93d6 100644
--- a/src/backend/base/base_conv2d_winograd.cpp
+++ b/src/backend/base/base_conv2d_winograd.cpp
@@ -10,6 +10,8 @@
 
 #include "kernels/common/function.h"
 
+#include <cstring>
+
 namespace ts {
     namespace base{
         Conv2DWinograd::Conv2DWinograd() {
@@ -76,6 +78,11 @@ namespace ts {
 
         }
 
+        static bool is_same_kernel(const Tensor &lhs, const Tensor &rhs) {
+            if (lhs.dtype() != rhs.dtype() || !lhs.has_shape(rhs.sizes())) return false;
+            return std::memcmp(lhs.data(), rhs.data(), size_t(lhs.count()) * lhs.proto().type_bytes()) == 0;
+        }
+
         int Conv2DWinograd::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             TS_AUTO_CHECK(stack.size() == 2);
 
@@ -84,6 +91,13 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dims() == 4);
             TS_AUTO_CHECK(k_tensor.dims() == 4);
+            if (m_kernel_transformed) {
+                TS_AUTO_CHECK(k_tensor.size(2) == k_tensor.size(3) && (k_tensor.size(2) == 4 || k_tensor.size(2) == 8));
+            } else {
+                TS_AUTO_CHECK(k_tensor.size(2) == 3 && k_tensor.size(3) == 3);
+            }
+            TS_AUTO_CHECK(k_tensor.size(1) == x_tensor.size(m_format == FORMAT_NCHW ? 1 : 3));
+            TS_AUTO_CHECK(k_tensor.dtype() == x_tensor.dtype());
 
             Size2D x;
             //winograd conv2d only suppot ksize == 3x3 && stride == 1 && dialations == 1
@@ -142,8 +156,15 @@ namespace ts {
                 padding = Padding2D(m_padding4x2[2], m_padding4x2[3], m_padding4x2[4], m_padding4x2[5]);
             }
 
+            // the given kernel was transformed ahead
+            if (m_kernel_transformed) {
+                m_winograd_mode = kernel_tensor.size(2) == 4 ? F2X2_3X3 : F6X6_3X3;
+                conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, kernel_tensor, m_format, out, true);
+                return 1;
+            }
+
             //warm up
-            if(!m_kernel_transformed || m_k_transformed.empty()){
+            if(m_k_transformed.empty() || !is_same_kernel(m_kernel, kernel_tensor)){
                 //select winograd mode
                 WinogradConv2DMode winograd_mode;
                 KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
@@ -158,10 +179,10 @@ namespace ts {
 
                 conv2d_tranform_kernel(m_winograd_mode, kernel_tensor, m_k_transformed);
 
-                m_kernel_transformed = true;
+                m_kernel = kernel_tensor.clone();
             }
 
-            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, m_kernel_transformed);
+            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, true);
 
 
             return 1;
-- 
2.43.0


From 5688b460f3d928d55ce0b445199e13720cdda057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:23 +0000
Subject: [PATCH 118/159] fix: the concat of the graph frontend joins its
 inputs

---
 src/frontend/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 860b9ac..273604c 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -65,7 +65,7 @@ namespace ts {
         }
 
         Node concat(const std::string &name, const std::vector<Node> &x, int32_t dim) {
-            Node node = bubble::bubble(desc::gather(dim), name);
+            Node node = bubble::bubble(desc::concat(dim), name);
             Node::Link(node, x);
             return node;
         }
-- 
2.43.0


From 652583225efe33f29454357832fe9ec0df559eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:59 +0000
Subject: [PATCH 119/159] fix: the broadcast of the graph frontend broadcasts

---
 src/frontend/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/symbol.cpp b/src/frontend/symbol.cpp
index 273604c..dc5c22b 100644
--- a/src/frontend/symbol.cpp
+++ b/src/frontend/symbol.cpp
@@ -103,7 +103,7 @@ namespace ts {
         }
 
         Node broadcast(const std::string &name, const Node &x, const Node &shape) {
-            Node node = bubble::bubble(desc::matmul(), name);
+            Node node = bubble::bubble(desc::broadcast(), name);
             Node::Link(node, {x, shape});
             return node;
         }
-- 
2.43.0


From 6529d72628317d3da57dcf1817c8f265eccf8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:53 +0000
Subject: [PATCH 120/159] fix: a busy thread and a busy pool tell so

---
 src/runtime/inside/thread_pool.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 627eef9..eae94c0 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -31,7 +31,8 @@ namespace ts {
     }
 
     bool Thread::busy() {
-        if (!task_mutex.try_lock()) return false;
+        // the mutex is held while a task is running
+        if (!task_mutex.try_lock()) return true;
         bool is_busy = task != nullptr;
         task_mutex.unlock();
         return is_busy;
@@ -112,10 +113,8 @@ namespace ts {
     }
 
     bool ThreadPool::busy() {
-        if (!running_core_mutex.try_lock()) return false;
-        bool is_busy = this->running_core.size() != this->thread_pool.size();
-        running_core_mutex.unlock();
-        return is_busy;
+        std::unique_lock<std::mutex> locker(running_core_mutex);
+        return this->running_core.size() != this->thread_pool.size();
     }
 
     size_t ThreadPool::size() const {
-- 
2.43.0


From a4ae69e5843de73b9d35a7fb34b281610e7a08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:53 +0000
Subject: [PATCH 121/159] fix: a pool without threads runs the task after the
 task

---
 src/runtime/inside/thread_pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index eae94c0..d469cc9 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -87,6 +87,7 @@ namespace ts {
     Thread *ThreadPool::run(const Thread::task_type &task, const Thread::after_task_type &after_task) {
         if (thread_pool.size() == 0) {
             task(0);
+            after_task(0);
             return nullptr;
         } else {
             int signet = load();
-- 
2.43.0


From 1daa736baeae89c4956bc8c40ac1ba2bd6f46c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:11 +0000
Subject: [PATCH 122/159] fix: packing no fields empties the tensor

---
 src/core/tensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 8a1882f..47e0805 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -258,8 +258,7 @@ namespace ts {
 
     void Tensor::pack(const std::vector<Tensor::self> &fields) {
         if (fields.empty()) {
-            this->m_memory = make_smart<TensorMemory>();
-            this->m_proto = Prototype();
+            *this = self();
             return;
         }
         this->m_memory = fields[0].m_memory;
-- 
2.43.0


From c79e1e3003aea29b0405b6b212c1d366ede2284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:11 +0000
Subject: [PATCH 123/159] fix: a bubble read without shape has none

---
 src/module/bubble.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index fd6f402..c0c86d4 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -186,6 +186,7 @@ namespace ts {
 
     size_t Bubble::externalize(StreamReader &stream) {
         m_params.clear();
+        m_shape.clear();
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-- 
2.43.0


From d9de651e00e6d2c3987ec795e31b7ac31e977062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:11 +0000
Subject: [PATCH 124/159] fix: edit_distance counts over all chars

---
 src/utils/box.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/utils/box.cpp b/src/utils/box.cpp
index 3e96975..f156c80 100644
--- a/src/utils/box.cpp
+++ b/src/utils/box.cpp
@@ -24,25 +24,19 @@ namespace ts {
         const size_t M = lhs.length();  // rows
         const size_t N = rhs.length();  // cols
 
-        if (M == 0) return int(N);
-        if (N == 0) return int(M);
-
-        std::unique_ptr<int[]> dist(new int[M * N]);
-#define __EDIT_DIST(m, n) (dist[(m) * N + (n)])
-        __EDIT_DIST(0, 0) = lhs[0] == rhs[0] ? 0 : 2;
-        for (size_t n = 1; n < N; ++n) {
-            __EDIT_DIST(0, n) = __EDIT_DIST(0, n - 1) + 1;
+        // distance between the first m chars of lhs and the first n chars of rhs
+        std::unique_ptr<int[]> dist(new int[(M + 1) * (N + 1)]);
+#define __EDIT_DIST(m, n) (dist[(m) * (N + 1) + (n)])
+        for (size_t n = 0; n <= N; ++n) {
+            __EDIT_DIST(0, n) = int(n);
         }
-        for (size_t m = 1; m < M; ++m) {
-            __EDIT_DIST(m, 0) = __EDIT_DIST(m - 1, 0) + 1;
+        for (size_t m = 1; m <= M; ++m) {
+            __EDIT_DIST(m, 0) = int(m);
         }
-        for (size_t m = 1; m < M; ++m) {
-            for (size_t n = 1; n < N; ++n) {
-                if (lhs[m] == rhs[n]) {
-                    __EDIT_DIST(m, n) = min(
-                            __EDIT_DIST(m - 1, n),
-                            __EDIT_DIST(m, n - 1),
-                            __EDIT_DIST(m - 1, n - 1));
+        for (size_t m = 1; m <= M; ++m) {
+            for (size_t n = 1; n <= N; ++n) {
+                if (lhs[m - 1] == rhs[n - 1]) {
+                    __EDIT_DIST(m, n) = __EDIT_DIST(m - 1, n - 1);
                 } else {
                     __EDIT_DIST(m, n) = min(
                             __EDIT_DIST(m - 1, n) + 1,
@@ -51,7 +45,7 @@ namespace ts {
                 }
             }
         }
-        return dist[M * N - 1];
+        return __EDIT_DIST(M, N);
 #undef __EDIT_DIST
     }
 
-- 
2.43.0


From 83f11d472657bb28abd8d4f1d8b8bdbe3a800fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:11 +0000
Subject: [PATCH 125/159] fix: broadcast of memory keeps views on the same
 device

---
 include/core/sync/sync_block.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/core/sync/sync_block.h b/include/core/sync/sync_block.h
index 748cf99..dbf8639 100644
--- a/include/core/sync/sync_block.h
+++ b/include/core/sync/sync_block.h
@@ -134,14 +134,14 @@ namespace ts {
         }
 
         // broadcast default value to other key,
-        // be careful, this action may disable already exist view
+        // be careful, this action may disable already exist view of other key
         void broadcast() {
             auto _write = this->lock_write();
-            auto key = m_default_key;
-            auto value = *m_default_value;
-            m_param->m_sync_values.clear();
-            auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(key, value));
-            m_default_value = &(pair_it_flag.first->second);
+            auto &values = m_param->m_sync_values;
+            for (auto it = values.begin(); it != values.end();) {
+                if (it->first == m_default_key) ++it;
+                else it = values.erase(it);
+            }
         }
 
         void foreach(const std::function<void(const _KEY &key, const _VALUE &value)> &handler) const {
-- 
2.43.0


From 531287bcadc288ec5a0a1afd1bc52851f8c46ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 126/159] fix: split into sizes that are not the tensor's is
 refused

---
 src/backend/base/base_split.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backend/base/base_split.cpp b/src/backend/base/base_split.cpp
index e39c712..6ff22ee 100644
--- a/src/backend/base/base_split.cpp
+++ b/src/backend/base/base_split.cpp
@@ -25,6 +25,16 @@ namespace ts {
 
             TS_AUTO_CHECK((dim >= 0) && (dim < int(x_shape.size())));
 
+            int64_t total = 0;
+            for (auto size : split) {
+                TS_AUTO_CHECK(size >= 0);
+                total += size;
+            }
+            if (total != x_shape[dim]) {
+                TS_LOG_ERROR << "Can not split " << to_string(x_shape) << " at axis " << dim
+                             << " into " << to_string(split) << eject;
+            }
+
             std::vector<Tensor::Prototype> shapes;
             for (auto size : split) {
                 auto shape = x_shape;
-- 
2.43.0


From 42793c7f1c6f9bcb3d8a96019822b548ae94b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 127/159] fix: a range with delta 0 is refused

---
 src/kernels/cpu/range.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index d49e652..9eae8c3 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -21,6 +21,8 @@ namespace ts {
             T limit = limit_tensor.data<T>()[0];
             T delta = delta_tensor.data<T>()[0];
 
+            TS_AUTO_CHECK(delta != 0);
+
             steps = int((limit - start) / delta);
            
             auto last = steps * delta + start;
-- 
2.43.0


From 7a86ef0fbe93cd50d41100afda88407cfddf0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 128/159] fix: dimshuffle of a dim the tensor has not is
 refused

---
 src/backend/base/base_dimshuffle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_dimshuffle.cpp b/src/backend/base/base_dimshuffle.cpp
index 7a9d5dd..16b8882 100644
--- a/src/backend/base/base_dimshuffle.cpp
+++ b/src/backend/base/base_dimshuffle.cpp
@@ -42,10 +42,10 @@ namespace ts {
             TS_AUTO_CHECK(input_num == 1);
 
             auto x = stack[0];
-            auto dim_size = x.size(m_dim);
-
             TS_AUTO_CHECK(m_dim < x.dims());
 
+            auto dim_size = x.size(m_dim);
+
             for (auto &i : m_shuffle) {
                 if (i >= dim_size) {
                     TS_LOG_ERROR << "Unsupported x.shape = " << to_string(x.sizes())
-- 
2.43.0


From dc8a13929c511c161697af9e99da9bf2fd93af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 129/159] fix: non_max_suppression_v3 checks its boxes and
 scores

---
 src/backend/base/base_non_max_suppression_v3.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/base/base_non_max_suppression_v3.cpp b/src/backend/base/base_non_max_suppression_v3.cpp
index 6d3d290..86438ab 100644
--- a/src/backend/base/base_non_max_suppression_v3.cpp
+++ b/src/backend/base/base_non_max_suppression_v3.cpp
@@ -43,6 +43,7 @@ namespace ts {
             TS_AUTO_CHECK(score_shape[0] == x_shape[0]);
 
             TS_AUTO_CHECK(x.dtype() == FLOAT32);
+            TS_AUTO_CHECK(score.dtype() == FLOAT32);
 
             Shape shape;
             shape.resize(1);
@@ -56,6 +57,9 @@ namespace ts {
         int Non_Max_Suppression_V3::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
+            std::vector<Tensor::Prototype> output;
+            infer(stack, output);   // checks boxes and scores
+
             auto memory_device = running_memory_device();
             auto box = stack[0].view(memory_device);
             auto scores = stack[1].view(memory_device);
-- 
2.43.0


From 617bf09de7c7de13dd1b29918cee17119901d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 130/159] fix: gatherv2 of indices out of range is refused

---
 src/backend/base/base_gatherv2.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_gatherv2.cpp b/src/backend/base/base_gatherv2.cpp
index 7ea6f3b..1606001 100644
--- a/src/backend/base/base_gatherv2.cpp
+++ b/src/backend/base/base_gatherv2.cpp
@@ -54,10 +54,17 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto indices = tensor::cast(INT32, stack[1]).view(memory_device);
+            auto indices = tensor::cast(INT32, stack[1]);
             TS_AUTO_CHECK(indices.dtype() == INT32);
             auto output_proto = infer_gather(stack[0], indices);
 
+            auto depth = indices.sizes().back();
+            auto indices_data = indices.data<int32_t>();
+            for (int i = 0; i < indices.count(); ++i) {
+                TS_AUTO_CHECK(indices_data[i] >= 0 && indices_data[i] < x.size(i % depth));
+            }
+            indices = indices.view(memory_device);
+
             auto &out = *stack.push(output_proto, memory_device);
 
             gather(x, indices, out);
-- 
2.43.0


From a803d9df09540b33f0e98f3f587c819ad8ab3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 131/159] fix: gather_elements of indices out of range or of
 another shape is refused

---
 src/backend/base/base_gather_elements.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index f6985f4..d7e9474 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -23,6 +23,10 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() >= 1);
             TS_AUTO_CHECK(axis >= -dims && axis < dims);
+            TS_AUTO_CHECK(indices.dims() == x.dims());
+            for (int i = 0; i < dims; ++i) {
+                TS_AUTO_CHECK(i == (axis >= 0 ? axis : dims + axis) || indices.size(i) == x.size(i));
+            }
 
             return Tensor::Prototype(x.dtype(), indices.sizes());
         }
@@ -57,7 +61,9 @@ namespace ts {
             auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
-                indices_data[i] = v < 0 ? v + indices_limit : v;
+                if (v < 0) v += indices_limit;
+                TS_AUTO_CHECK(v >= 0 && v < indices_limit);
+                indices_data[i] = v;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
-- 
2.43.0


From 83284e84c54434af3885f74e8cf92e878d173310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 132/159] fix: scatter_nd to indices out of range or of updates
 of another shape is refused

---
 src/kernels/cpu/scatter_nd.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/scatter_nd.cpp b/src/kernels/cpu/scatter_nd.cpp
index a63c9a6..c0437d2 100644
--- a/src/kernels/cpu/scatter_nd.cpp
+++ b/src/kernels/cpu/scatter_nd.cpp
@@ -18,11 +18,18 @@ namespace ts {
             if (number == 0) return;
             auto block = updates.count() / number * bytes;
 
+            // updates must have one block for every index
+            Shape updates_shape(indices.sizes().begin(), indices.sizes().end() - 1);
+            updates_shape.insert(updates_shape.end(), data.sizes().begin() + depth, data.sizes().end());
+            TS_AUTO_CHECK(updates.sizes() == updates_shape);
+
             for (int i = 0; i < number; ++i) {
                 // each index row addresses a block by its leading `depth` coordinates
                 int out_idx = 0;
                 for (int k = 0; k < depth; ++k) {
-                    out_idx = out_idx * data.size(k) + indices.data<int>(i * depth + k);
+                    auto idx = indices.data<int>(i * depth + k);
+                    TS_AUTO_CHECK(idx >= 0 && idx < data.size(k));
+                    out_idx = out_idx * data.size(k) + idx;
                 }
                 std::memcpy(out.data<uint8_t>() + out_idx * block,
                             updates.data<uint8_t>() + i * block, block);
-- 
2.43.0


From f0491e9246480775c57429f2c60851a31bcb00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 133/159] fix: strided_slice with step 0 is refused

---
 src/backend/base/base_strided_slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 855de25..0e80b4b 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -81,7 +81,7 @@ namespace ts {
             } else if (stride < 0) {
                 return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step can not be zero" << eject;
                 return 0;
             }
         }
-- 
2.43.0


From 8fbe5539a00ef8335289f2236ec6865c895ca3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:41 +0000
Subject: [PATCH 134/159] fix: slice_v3 with step 0 or missing ends or steps is
 refused

---
 src/backend/base/base_slice_v3.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 3ebc37b..64b9254 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -57,7 +57,7 @@ namespace ts {
             } else if (stride < 0) {
                 return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
+                TS_LOG_ERROR << "slice step can not be zero" << eject;
                 return 0;
             }
         }
@@ -351,6 +351,7 @@ namespace ts {
                 }
             }
             TS_AUTO_CHECK(axes.size() == starts.size());
+            TS_AUTO_CHECK(ends.size() == starts.size());
 
             Shape steps;
             if (stack.size() > 4) {
@@ -358,6 +359,7 @@ namespace ts {
             } else {
                 steps = Shape(slice_size, 1);
             }
+            TS_AUTO_CHECK(steps.size() == starts.size());
 
             int32_t max_axis = INT32_MIN;
             int32_t pre_axis = INT32_MIN;
-- 
2.43.0


From fe8db3401cd471fbe427da362859fb59ce1ef7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:22 +0000
Subject: [PATCH 135/159] fix: const kernels that are no matrices or filters
 crashed packing

---
 src/compiler/option/pack_translator_option.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 89907f0..a5fb99d 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -77,6 +77,13 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
             return true;
         }
 
+        //matrices of other shape are left to the operator, which refuses them
+        if ((A_node.bubble().op() == Bubble::Const && A_node.bubble().get(name::value).dims() != 2) ||
+            (B_node.bubble().op() == Bubble::Const && B_node.bubble().get(name::value).dims() != 2)) {
+            Node::Link(translated_node, node.inputs());
+            return true;
+        }
+
         //only float32 const supported
         if ((transA && A_node.bubble().get(name::value).dtype() != FLOAT32) ||
             (transB && B_node.bubble().get(name::value).dtype() != FLOAT32)) {
@@ -185,6 +192,12 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         return true;
     }
 
+    //kernels of other shape are left to the operator, which refuses them
+    if (kernel_shape.size() != (op_name == name::layer::inner_prod() ? 2 : 4)) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
+
     //winograd_check
 #ifdef TS_ON_ARM
     ArgParser parser;
-- 
2.43.0


From 642cc9291e1e37c709ccd8b8d8130abb093a5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:11 +0000
Subject: [PATCH 136/159] fix: mod by zero killed the process

---
 src/kernels/cpu/mod.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index 4797677..518de71 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -6,6 +6,7 @@
 #include <core/device.h>
 
 #include <numeric>
+#include <limits>
 
 #include "kernels/common/simd.h"
 
@@ -17,11 +18,15 @@ namespace ts {
     namespace cpu {
         template <typename T>
         inline void reduce_operator(T &x, T lhs, T rhs) {
-            x = lhs % rhs;
+            if (rhs == T(0)) {
+                TS_LOG_ERROR << "Can not mod by zero" << eject;
+            }
+            // lowest % -1 overflows, though the answer is 0 for every lhs
+            x = std::numeric_limits<T>::is_signed && rhs == T(-1) ? T(0) : T(lhs % rhs);
         }
         template <typename T>
         inline void reduce_operator(T &x, T y) {
-            x %= y;
+            reduce_operator(x, x, y);
         }
 
         static inline int to_mod_index(const HypeShape &hype, const Shape &coordinate) {
-- 
2.43.0


From 8162465f8995fb102619060dd01cea11083d2791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:11 +0000
Subject: [PATCH 137/159] fix: l2_norm of integers whose norm is 0 killed the
 process

---
 src/kernels/cpu/l2_norm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index a2a7de7..076fd18 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -6,6 +6,7 @@
 #include "global/operator_factory.h"
 #include <algorithm>
 #include <math.h>
+#include <limits>
 
 #include <kernels/common/simd.h>
 
@@ -67,7 +68,8 @@ namespace ts {
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-                        *loop_out = *loop_in / norm;
+                        // the norm of integers may be 0
+                        *loop_out = std::numeric_limits<T>::is_integer && norm == 0 ? T(0) : T(*loop_in / norm);
 
                         loop_in += tail_num;
                         loop_out += tail_num;
-- 
2.43.0


From 1a494b0dcc9fff6a2d236978ec4b788bcc2ba48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:11 +0000
Subject: [PATCH 138/159] fix: norm_image of a tensor without dimensions killed
 the process

---
 src/backend/base/base_norm_image.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_norm_image.cpp b/src/backend/base/base_norm_image.cpp
index 09cdaf4..91bee3e 100644
--- a/src/backend/base/base_norm_image.cpp
+++ b/src/backend/base/base_norm_image.cpp
@@ -20,6 +20,7 @@ namespace ts {
 
         int NormImage::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             TS_AUTO_CHECK(stack.size() == 1);
+            TS_AUTO_CHECK(stack[0].dims() > 0);
 
             output.resize(1);
             output[0] = stack[0].proto();
@@ -29,6 +30,7 @@ namespace ts {
 
         int NormImage::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 1);
+            TS_AUTO_CHECK(stack[0].dims() > 0);
 
             auto memory_device = running_memory_device();
 
-- 
2.43.0


From 8e28235643914e63d538852c1eee3fa7970234fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:11 +0000
Subject: [PATCH 139/159] fix: range read limit and delta with the type of
 start

---
 src/kernels/cpu/range.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index 9eae8c3..7be3f87 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -54,6 +54,8 @@ namespace ts {
             TS_AUTO_CHECK(start.count() == 1);
             TS_AUTO_CHECK(limit.count() == 1);
             TS_AUTO_CHECK(delta.count() == 1);
+            TS_AUTO_CHECK(limit.dtype() == start.dtype());
+            TS_AUTO_CHECK(delta.dtype() == start.dtype());
 
             int steps = 0; 
             DTYPE dtype = start.dtype();
-- 
2.43.0


From 2cf7d903e4b0cad8bbd3b75bc8de572c133a7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:11 +0000
Subject: [PATCH 140/159] fix: where broadcast a size of 0 to 1

---
 src/backend/base/base_where.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_where.cpp b/src/backend/base/base_where.cpp
index 493c7a5..9fdb780 100644
--- a/src/backend/base/base_where.cpp
+++ b/src/backend/base/base_where.cpp
@@ -58,7 +58,8 @@ namespace ts {
                                      << to_string(_rhs_shape) << eject;
                     }
                     do_broadcast = true;
-                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
+                    size = cond_shape[i] != 1 ? cond_shape[i]
+                                              : (lhs_shape[i] != 1 ? lhs_shape[i] : rhs_shape[i]);
                 }
                 out_shape[i] = size;
             }
-- 
2.43.0


From 5c55a2c4721c40dd093f69ac4b0ecf5067ddceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:11 +0000
Subject: [PATCH 141/159] fix: space_to_batch4d with negative padding wrote out
 of bounds

---
 src/backend/base/base_spacetobatch4d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/base/base_spacetobatch4d.cpp b/src/backend/base/base_spacetobatch4d.cpp
index 19bbcc7..4cd43a8 100644
--- a/src/backend/base/base_spacetobatch4d.cpp
+++ b/src/backend/base/base_spacetobatch4d.cpp
@@ -40,6 +40,7 @@ namespace ts {
 
             for(size_t i=0; i<4; i++) {
                 m_padding[i] = padding_tensor.data<int32_t>(i);
+                TS_AUTO_CHECK(m_padding[i] >= 0);
             }
 
             m_block_shape[0] = block_shape_tensor.data<int32_t>(0);
-- 
2.43.0


From 2cbb49dd0984377cc70174a30013d192bd8176f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:22 +0000
Subject: [PATCH 142/159] fix: softmax of no element read out of bounds

---
 src/kernels/cpu/softmax.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernels/cpu/softmax.cpp b/src/kernels/cpu/softmax.cpp
index fceb35d..f7298af 100644
--- a/src/kernels/cpu/softmax.cpp
+++ b/src/kernels/cpu/softmax.cpp
@@ -21,6 +21,8 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
+            if (out.count() == 0) return;
+
             if (body_num == 1) {
                 T one(1);
                 memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
@@ -81,6 +83,8 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
+            if (out.count() == 0) return;
+
             if (body_num == 1) {
                 T one(1);
                 memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-- 
2.43.0


From c532a4278f9ff89aadabc1cfcd4624561b057a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:22 +0000
Subject: [PATCH 143/159] fix: yolo of an empty map killed the process

---
 src/kernels/cpu/yolo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/yolo.cpp b/src/kernels/cpu/yolo.cpp
index 011fdba..b139318 100644
--- a/src/kernels/cpu/yolo.cpp
+++ b/src/kernels/cpu/yolo.cpp
@@ -138,6 +138,7 @@ namespace ts {
                 l.batch = x.size(0);
                 l.n = m_n;
                 l.output = out.data();
+                if (out.count() == 0) l.batch = 0;  // there is nothing to activate
 
                 DTYPE dtype = out.dtype();
                 switch (dtype) {
-- 
2.43.0


From 37eb38d799bf1031e8192a82fb30683739f62ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:22 +0000
Subject: [PATCH 144/159] fix: flatten with dim below -dims read out of bounds

---
 src/backend/base/base_flatten.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_flatten.cpp b/src/backend/base/base_flatten.cpp
index a06c69f..2bc98cd 100644
--- a/src/backend/base/base_flatten.cpp
+++ b/src/backend/base/base_flatten.cpp
@@ -6,6 +6,8 @@
 
 #include <numeric>
 
+#include <utils/assert.h>
+
 #include "core/tensor_builder.h"
 #include "backend/name.h"
 
@@ -23,6 +25,7 @@ namespace ts {
         Shape Flatten::newshape(const Tensor &x) {
             auto fixed_dim = m_dim;
             if (fixed_dim < 0) fixed_dim += int(x.dims());
+            TS_AUTO_CHECK(fixed_dim >= 0);
             auto need_size = size_t(fixed_dim + 1);
             auto x_size = x.sizes().size();
             if (need_size < x_size) {
-- 
2.43.0


From fc52c1dcfc31842374834915f9d5193854e578ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:12 +0000
Subject: [PATCH 145/159] fix: softmax of integers whose exponentials sum to 0
 killed the process

---
 src/kernels/cpu/softmax.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernels/cpu/softmax.cpp b/src/kernels/cpu/softmax.cpp
index f7298af..ce5997d 100644
--- a/src/kernels/cpu/softmax.cpp
+++ b/src/kernels/cpu/softmax.cpp
@@ -4,6 +4,7 @@
 #include "global/operator_factory.h"
 #include <algorithm>
 #include <math.h>
+#include <limits>
 
 #include <kernels/common/simd.h>
 #ifdef TS_USE_OPENMP
@@ -62,6 +63,8 @@ namespace ts {
                         loop_in += tail_num;
                         loop_out += tail_num;
                     }
+                    // the sum of integers may be 0
+                    if (std::numeric_limits<T>::is_integer && sum == 0) sum = 1;
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
@@ -131,6 +134,8 @@ namespace ts {
                         loop_in += tail_num;
                         loop_out += tail_num;
                     }
+                    // the sum of integers may be 0
+                    if (std::numeric_limits<T>::is_integer && sum == 0) sum = 1;
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-- 
2.43.0


From 8577d4bef342c84cf798679b67ab8dd94b9c1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:12 +0000
Subject: [PATCH 146/159] fix: reshape that deduces a size next to a size of 0
 killed the process

---
 src/backend/base/base_reshape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_reshape.cpp b/src/backend/base/base_reshape.cpp
index b01f186..9f7286f 100644
--- a/src/backend/base/base_reshape.cpp
+++ b/src/backend/base/base_reshape.cpp
@@ -61,6 +61,9 @@ namespace ts {
 
             if (m_broadcast_dim >= 0) {
                 running_count *= m_count_without_dim;
+                if (running_count == 0) {
+                    TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
+                }
                 shape[m_broadcast_dim] = x_count / running_count;
                 if (shape[m_broadcast_dim] * running_count != x_count) {
                     TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
-- 
2.43.0


From c42c3a77690826292f8ae6374cc303acf35b7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:28 +0000
Subject: [PATCH 147/159] fix: convolution without any output wrote out of
 bounds

---
 src/kernels/cpu/conv2d_core.cpp                     | 2 ++
 src/kernels/cpu/quantized/conv2d_quantized_core.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/kernels/cpu/conv2d_core.cpp b/src/kernels/cpu/conv2d_core.cpp
index 9e5089c..209a970 100644
--- a/src/kernels/cpu/conv2d_core.cpp
+++ b/src/kernels/cpu/conv2d_core.cpp
@@ -18,6 +18,8 @@ namespace ts {
         static void cpu_conv2d_nchw_compute_run(const Tensor &x, const Padding2D &padding, float padding_value,
                                            const Tensor &w, const Stride2D &stride, const Dilation2D &dilation,
                                            Tensor &out, Stack &stack, bool kernel_packed) {
+            if (out.count() == 0) return;
+
             auto weight_shape = w.sizes();
             auto output_shape = out.sizes();
             auto x_shape = x.sizes();
diff --git a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
index 804a5a2..59ac37f 100644
--- a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
+++ b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
@@ -19,6 +19,8 @@ namespace ts {
         static void cpu_conv2d_nchw_compute_run(const Tensor &x, const Padding2D &padding, float padding_value,
                                            const Tensor &w, const Stride2D &stride, const Dilation2D &dilation,
                                            std::vector<float>dequantize_scales, Tensor &out, Stack &stack) {
+            if (out.count() == 0) return;
+
             auto weight_shape = w.sizes();
             auto output_shape = out.sizes();
             auto x_shape = x.sizes();
-- 
2.43.0


From e29c7b80d3600025b8b3552305e8d5cc9c16b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:28 +0000
Subject: [PATCH 148/159] fix: operators exited the process on inputs they do
 not take

---
 src/backend/base/base_proposal.cpp   | 4 ++--
 src/backend/base/base_roi_align.cpp  | 8 ++++----
 src/kernels/cpu/ceil.cpp             | 4 ++--
 src/kernels/cpu/detection_output.cpp | 4 ++--
 src/kernels/cpu/floor.cpp            | 4 ++--
 src/kernels/cpu/prior_box.cpp        | 6 +++---
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/backend/base/base_proposal.cpp b/src/backend/base/base_proposal.cpp
index 2720765..af1c7c7 100644
--- a/src/backend/base/base_proposal.cpp
+++ b/src/backend/base/base_proposal.cpp
@@ -38,7 +38,7 @@ namespace ts {
         }
 
         int Proposal::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-            TS_AUTO_ASSERT(stack.size() >= 3);
+            TS_AUTO_CHECK(stack.size() >= 3);
 
             auto num_images = stack[0].size(0);
 
@@ -53,7 +53,7 @@ namespace ts {
         }
 
         int Proposal::run(Stack &stack) {
-            TS_AUTO_ASSERT(stack.size() >= 3);
+            TS_AUTO_CHECK(stack.size() >= 3);
             
             auto memory_device = this->running_memory_device();
 
diff --git a/src/backend/base/base_roi_align.cpp b/src/backend/base/base_roi_align.cpp
index 8048b96..282c2e9 100644
--- a/src/backend/base/base_roi_align.cpp
+++ b/src/backend/base/base_roi_align.cpp
@@ -24,8 +24,8 @@ namespace ts {
         }
 
         int ROIAlign::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
-            TS_AUTO_ASSERT(stack.size() == 2);
-            TS_AUTO_ASSERT(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack.size() == 2);
+            TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
 
             output.resize(1);
             output[0] = Tensor::Prototype(stack[0].dtype(), {stack[1].size(0), stack[0].size(1), m_pool_h, m_pool_w});
@@ -34,8 +34,8 @@ namespace ts {
         }
 
         int ROIAlign::run(Stack &stack) {
-            TS_AUTO_ASSERT(stack.size() == 2);
-            TS_AUTO_ASSERT(stack[0].dtype() == stack[1].dtype());
+            TS_AUTO_CHECK(stack.size() == 2);
+            TS_AUTO_CHECK(stack[0].dtype() == stack[1].dtype());
 
             auto memory_device = this->running_memory_device();
 
diff --git a/src/kernels/cpu/ceil.cpp b/src/kernels/cpu/ceil.cpp
index 3b8112d..bf3889a 100644
--- a/src/kernels/cpu/ceil.cpp
+++ b/src/kernels/cpu/ceil.cpp
@@ -42,7 +42,7 @@ namespace ts {
             void init() final {}
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 DTYPE dtype = x.dtype();
@@ -70,7 +70,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 output.resize(1);
diff --git a/src/kernels/cpu/detection_output.cpp b/src/kernels/cpu/detection_output.cpp
index 35aeffc..4c0c09b 100644
--- a/src/kernels/cpu/detection_output.cpp
+++ b/src/kernels/cpu/detection_output.cpp
@@ -124,7 +124,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() >= 3 && stack.size() <= 4);
+                TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack, false));
@@ -138,7 +138,7 @@ namespace ts {
             }
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() >= 3 && stack.size() <= 4);
+                TS_AUTO_CHECK(stack.size() >= 3 && stack.size() <= 4);
                 using Dtype = float;
                 auto loc = tensor::cast(FLOAT32,  stack[0]);
                 auto conf = tensor::cast(FLOAT32,  stack[1]);
diff --git a/src/kernels/cpu/floor.cpp b/src/kernels/cpu/floor.cpp
index 8b38194..c57bd02 100644
--- a/src/kernels/cpu/floor.cpp
+++ b/src/kernels/cpu/floor.cpp
@@ -42,7 +42,7 @@ namespace ts {
             void init() final {}
 
             int run(Stack &stack) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 DTYPE dtype = x.dtype();
@@ -70,7 +70,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() == 1);
+                TS_AUTO_CHECK(stack.size() == 1);
                 auto &x = stack[0];
 
                 output.resize(1);
diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index e0ebcfd..ed478c7 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -45,7 +45,7 @@ namespace ts {
 
             void init() final {
                 min_sizes_ = tensor::array::to_float(get("min_size"));
-                TS_AUTO_ASSERT(!min_sizes_.empty());
+                TS_AUTO_CHECK(!min_sizes_.empty());
                 for (auto &size : min_sizes_) {
                     TS_CHECK_GT(size, 0) << "min_size must be positive." << eject;
                 }
@@ -150,7 +150,7 @@ namespace ts {
             }
 
             int infer(Stack &stack, std::vector<Tensor::Prototype> &output) final {
-                TS_AUTO_ASSERT(stack.size() >= 1);
+                TS_AUTO_CHECK(stack.size() >= 1);
 
                 output.resize(1);
                 output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack[0]));
@@ -173,7 +173,7 @@ namespace ts {
                 const int layer_height = feat.size(2);
                 int img_width, img_height;
                 if (img_h_ == 0 || img_w_ == 0) {
-                    TS_AUTO_ASSERT(stack.size() > 1);
+                    TS_AUTO_CHECK(stack.size() > 1);
                     auto &img = stack[1];
                     TS_AUTO_CHECK(img.dims() == 4);
                     img_width = img.size(3);
-- 
2.43.0


From 77d66a842c7ddfb4cab66cdffd4a8b9f681d670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:08 +0000
Subject: [PATCH 149/159] fix: strides and dilations of convolutions that are
 not positive killed the process

---
 src/backend/base/base_conv2d.cpp           | 4 ++++
 src/backend/base/base_conv2d_quantized.cpp | 4 ++++
 src/backend/base/base_conv2d_transpose.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/backend/base/base_conv2d.cpp b/src/backend/base/base_conv2d.cpp
index bf82974..8ee7e1e 100644
--- a/src/backend/base/base_conv2d.cpp
+++ b/src/backend/base/base_conv2d.cpp
@@ -77,6 +77,10 @@ namespace ts {
             for (size_t i = 0; i < 4; ++i) m_stride4[i] = stride_tensor.data<int32_t>(i);
             m_dilation4.resize(4);
             for (size_t i = 0; i < 4; ++i) m_dilation4[i] = dilation_tensor.data<int32_t>(i);
+            for (size_t i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(m_stride4[i] > 0);
+                TS_AUTO_CHECK(m_dilation4[i] > 0);
+            }
 
             // only support native conv2d
             if (m_format == FORMAT_NCHW) {
diff --git a/src/backend/base/base_conv2d_quantized.cpp b/src/backend/base/base_conv2d_quantized.cpp
index a70877c..72308c5 100644
--- a/src/backend/base/base_conv2d_quantized.cpp
+++ b/src/backend/base/base_conv2d_quantized.cpp
@@ -73,6 +73,10 @@ namespace ts {
             for (size_t i = 0; i < 4; ++i) m_stride4[i] = stride_tensor.data<int32_t>(i);
             m_dilation4.resize(4);
             for (size_t i = 0; i < 4; ++i) m_dilation4[i] = dilation_tensor.data<int32_t>(i);
+            for (size_t i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(m_stride4[i] > 0);
+                TS_AUTO_CHECK(m_dilation4[i] > 0);
+            }
 
             // only support native conv2d
             if (m_format == FORMAT_NCHW) {
diff --git a/src/backend/base/base_conv2d_transpose.cpp b/src/backend/base/base_conv2d_transpose.cpp
index 0d17a42..4245181 100644
--- a/src/backend/base/base_conv2d_transpose.cpp
+++ b/src/backend/base/base_conv2d_transpose.cpp
@@ -91,6 +91,10 @@ namespace ts {
             for (size_t i = 0; i < 4; ++i) m_stride4[i] = stride_tensor.data<int32_t>(i);
             m_dilation4.resize(4);
             for (size_t i = 0; i < 4; ++i) m_dilation4[i] = dilation_tensor.data<int32_t>(i);
+            for (size_t i = 0; i < 4; ++i) {
+                TS_AUTO_CHECK(m_stride4[i] > 0);
+                TS_AUTO_CHECK(m_dilation4[i] > 0);
+            }
 
             // only support native conv2d
             if (m_format == FORMAT_NCHW) {
-- 
2.43.0


From ea75c88a92d3d0273a3e4161ec6ba708ad0e3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:08 +0000
Subject: [PATCH 150/159] fix: reduce_mean over no dimension read out of bounds

---
 src/backend/base/base_reduce_mean.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index 8a9f065..e2928e4 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -47,6 +47,7 @@ namespace ts {
 
         static std::vector<int> checkout(Stack &stack, std::vector<int> dims, bool keep_dim, Shape &output) {
             TS_AUTO_CHECK(stack.size() == 1);
+            TS_AUTO_CHECK(!dims.empty());
             Shape input = stack[0].sizes();
             auto has_dims = int(input.size());
 
-- 
2.43.0


From 1f7d9cb0a94bb96e00a040752b338fcbf42481ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:08 +0000
Subject: [PATCH 151/159] fix: batch_to_space4d with negative crop read out of
 bounds

---
 src/backend/base/base_batchtospace4d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/base/base_batchtospace4d.cpp b/src/backend/base/base_batchtospace4d.cpp
index df885e9..4f5f3f9 100644
--- a/src/backend/base/base_batchtospace4d.cpp
+++ b/src/backend/base/base_batchtospace4d.cpp
@@ -41,6 +41,7 @@ namespace ts {
 
             for(size_t i=0; i<4; i++) {
                 m_crop[i] = crop_tensor.data<int32_t>(i);
+                TS_AUTO_CHECK(m_crop[i] >= 0);
             }
 
             m_block_shape[0] = block_shape_tensor.data<int32_t>(0);
-- 
2.43.0


From ad7b3fb925132fe16fa0028edba152ab2e2b1c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:08 +0000
Subject: [PATCH 152/159] fix: roi_align of a box that is not a number read out
 of bounds

---
 src/kernels/cpu/dragon/roi_align_op_kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/dragon/roi_align_op_kernel.cpp b/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
index 00352cc..bcafd86 100644
--- a/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
+++ b/src/kernels/cpu/dragon/roi_align_op_kernel.cpp
@@ -22,7 +22,8 @@ namespace ts {
                     const int width,
                     T y,
                     T x) {
-                if (y < -1.0 || y > height || x < -1.0 || x > width) return 0;
+                // also for what is not a number
+                if (!(y >= -1.0 && y <= height && x >= -1.0 && x <= width)) return 0;
                 if (y <= 0) y = 0;
                 if (x <= 0) x = 0;
 
-- 
2.43.0


From ba0ac1366a8e3d59436430810ef996c84dc47792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:17 +0000
Subject: [PATCH 153/159] fix: broadcast of a size of 0 killed the process

---
 src/backend/base/base_broadcast_v2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_broadcast_v2.cpp b/src/backend/base/base_broadcast_v2.cpp
index cb7adf2..445387b 100644
--- a/src/backend/base/base_broadcast_v2.cpp
+++ b/src/backend/base/base_broadcast_v2.cpp
@@ -50,7 +50,7 @@ namespace ts {
                 if (x_shape[i] != 1 && y_shape[i] != 1 && x_shape[i] != y_shape[i]) {
                     z_shape.push_back(1);
                 } else {
-                    z_shape.push_back(std::max(x_shape[i], y_shape[i]));
+                    z_shape.push_back(x_shape[i] == 1 ? y_shape[i] : x_shape[i]);
                 }
             }
 
@@ -139,6 +139,11 @@ namespace ts {
 
             auto out_proto = Tensor::Prototype(x.dtype(), target);
 
+            if (out_proto.count() == 0) {
+                stack.push(out_proto, running_memory_device());
+                return 1;
+            }
+
             auto memory_device = running_memory_device();
 
             x = x.view(memory_device).reshape(x_shape);    // do sync, and set default data to given device
@@ -192,7 +197,7 @@ namespace ts {
                 if (x[i] != y[i] && x[i] != 1 && y[i] != 1) {
                     TS_LOG_ERROR << "Can not broadcast " << to_string(x) << " to " << to_string(shape) << eject;
                 }
-                output.push_back(std::max(x[i], y[i]));
+                output.push_back(x[i] == 1 ? y[i] : x[i]);
             }
             return true;
         }
-- 
2.43.0


From 95e940b2690f324b009463e0adb375ea48bf4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:17 +0000
Subject: [PATCH 154/159] fix: constant_of_shape of an empty value never
 returned

---
 src/kernels/cpu/constant_of_shape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/constant_of_shape.cpp b/src/kernels/cpu/constant_of_shape.cpp
index 3ddbb25..049d4f5 100644
--- a/src/kernels/cpu/constant_of_shape.cpp
+++ b/src/kernels/cpu/constant_of_shape.cpp
@@ -13,6 +13,7 @@ namespace ts {
             supper::init();
             if (has("value")) {
                 m_tensor = get("value");
+                TS_AUTO_CHECK(m_tensor.count() > 0);
             } else {
                 m_tensor = tensor::build(FLOAT32, 0.f);
             }
-- 
2.43.0


From 70fb2ebb953f429b6d076326bc72472ebc359843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:17 +0000
Subject: [PATCH 155/159] fix: proposal of several strides whose scores are not
 [N, proposals] wrote out of bounds

---
 src/kernels/cpu/dragon/proposal_op.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernels/cpu/dragon/proposal_op.cpp b/src/kernels/cpu/dragon/proposal_op.cpp
index f06fb24..f8b61a3 100644
--- a/src/kernels/cpu/dragon/proposal_op.cpp
+++ b/src/kernels/cpu/dragon/proposal_op.cpp
@@ -174,6 +174,12 @@ void ProposalOp<Context>::RunOnDevice() {
         required += Input(int(i)).dim(2) * Input(int(i)).dim(3) *
             int64_t(ratios.size() * (strides.size() > 1 ? 1 : scales.size()));
     }
+    if (strides.size() > 1) {
+        CHECK_EQ(Input(-3).shape().size(), 2)
+            << "\nscores must be [N, total proposals]" << eject;
+        CHECK_EQ(Input(-3).dim(1), required)
+            << "\nExcepted " << required << " proposals." << eject;
+    }
     CHECK_GT(Input(-3).count() + 1, num_images * required)
         << "\nToo few scores for " << required << " proposals." << eject;
     CHECK_GT(Input(-2).count() + 1, num_images * required * 4)
-- 
2.43.0


From a00f79b8df5a302f52d3d90b7de368e966ea23f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:45 +0000
Subject: [PATCH 156/159] fix: proposal without levels read out of bounds

---
 src/backend/base/base_proposal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/base/base_proposal.cpp b/src/backend/base/base_proposal.cpp
index af1c7c7..16b0956 100644
--- a/src/backend/base/base_proposal.cpp
+++ b/src/backend/base/base_proposal.cpp
@@ -33,6 +33,7 @@ namespace ts {
             m_min_size = tensor::to_int(get("min_size"));
             m_min_level = tensor::to_int(get("min_level"));
             m_max_level = tensor::to_int(get("max_level"));
+            TS_AUTO_CHECK(m_min_level <= m_max_level);
             m_canonical_scale = tensor::to_int(get("canonical_scale"));
             m_canonical_level = tensor::to_int(get("canonical_level"));
         }
-- 
2.43.0


From 6c537b19acbf1ada52634f073d6632d97644fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:51 +0000
Subject: [PATCH 157/159] fix: LSTM read sizes of tensors of other ranks

---
 src/backend/base/base_lstm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/base/base_lstm.cpp b/src/backend/base/base_lstm.cpp
index fa368fd..0956769 100644
--- a/src/backend/base/base_lstm.cpp
+++ b/src/backend/base/base_lstm.cpp
@@ -170,6 +170,8 @@ namespace ts {
             auto initial_h = stack[4];
             auto initial_c = stack[5];
 
+            TS_AUTO_CHECK(x.dims() == 3 && w.dims() == 3 && r.dims() == 3 && b.dims() == 2);
+
             if (initial_h.sizes().size() < 3) {
                 std::vector<float> vf(w.size(0) * x.size(1) * r.size(2), 0);
                 initial_h = tensor::build(FLOAT32, vf).reshape({w.size(0), x.size(1), r.size(2)});
-- 
2.43.0


From 0fc36d04f9d0a830a66a0a63d1f5d824d78eec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:51 +0000
Subject: [PATCH 158/159] fix: depthwise_conv2d and conv2d_winograd wrote out
 of bounds with negative padding

---
 src/kernels/common/function.cpp           |  3 ++-
 src/kernels/cpu/depthwise_conv2d_core.cpp |  4 +++-
 src/kernels/cpu/pad2d_algorithm.cpp       | 16 ++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/kernels/common/function.cpp b/src/kernels/common/function.cpp
index 7b3a9bb..d63c174 100644
--- a/src/kernels/common/function.cpp
+++ b/src/kernels/common/function.cpp
@@ -56,7 +56,8 @@ namespace ts{
         fixed_input_pad.left = padding.left;
         fixed_input_pad.right = input_padded_width - input_width - fixed_input_pad.left;
 
-        bool in_need_pad = input_padded_height != input_height || input_padded_width != input_width;
+        bool in_need_pad = input_padded_height != input_height || input_padded_width != input_width ||
+                           fixed_input_pad.top != 0 || fixed_input_pad.left != 0;
         bool out_need_pad = out_padded_height != out_height || out_padded_width != out_width;
         if (in_need_pad) {
             Tensor padded_input(Tensor::InFlow::HOST, input.dtype(),
diff --git a/src/kernels/cpu/depthwise_conv2d_core.cpp b/src/kernels/cpu/depthwise_conv2d_core.cpp
index 6d7a689..8c5ef80 100644
--- a/src/kernels/cpu/depthwise_conv2d_core.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_core.cpp
@@ -18,7 +18,9 @@ namespace ts {
 
             auto weight_shape = weight.sizes();
             auto dtype = x.dtype();
-            if (dtype != FLOAT32) {
+            // rows and columns taken away by negative padding are not known to the 3x3 algorithms
+            bool negative_padding = padding.top < 0 || padding.bottom < 0 || padding.left < 0 || padding.right < 0;
+            if (dtype != FLOAT32 || negative_padding) {
                 DepthwiseConv2dAlgorithm<T>::depthwise_general(x, padding, padding_value, weight, stride, dilation, out);
                 return;
             }
diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index b8db785..a53124a 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -123,6 +123,22 @@ namespace ts{
             // auto out_device = out.device();
             // auto x_device = x.device();
 
+            // a negative padding takes away rows or columns
+            if (pad_top < 0 || pad_bottom < 0 || pad_left < 0 || pad_right < 0) {
+                for (int i = 0; i < num * channel; i++) {
+                    for (int h = 0; h < out_h; h++) {
+                        for (int w = 0; w < out_w; w++) {
+                            int src_y = h - pad_top;
+                            int src_x = w - pad_left;
+                            bool inside = src_y >= 0 && src_y < src_h && src_x >= 0 && src_x < src_w;
+                            *dst_data++ = inside ? src_data[src_y * src_w + src_x] : value;
+                        }
+                    }
+                    src_data += src_channel_offset;
+                }
+                return;
+            }
+
             for (int n = 0; n < num; n++){
 #ifdef TS_USE_OPENMP
 #pragma omp parallel for num_threads(openmp_threads())
-- 
2.43.0


From 0e490c245ee5d6a9fa80ef86b6df725ca6813be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:38 +0000
Subject: [PATCH 159/159] fix: max pooling with kernel 3 and stride 2 read no
 data for an empty output

---
 src/kernels/cpu/pooling2d_core.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index bfadab2..a62142b 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -22,6 +22,7 @@ namespace ts {
          * no window is cut at both sides, and each window has something to be computed
          */
         static inline bool is_fit_kernel(int input, int output, int ksize, int padding) {
+            if (output < 1) return false;
             int padding_end = (output - 1) * 2 + ksize - input - padding;
             if (padding_end >= ksize) return false;
             if (padding > 0 && input < ksize - 1) return false;
-- 
2.43.0

