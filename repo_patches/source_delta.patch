From 6a83ea43372075f5ade32bc0c9e8ad7bdc8174a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 01/23] fix: size the 2D/3D stream buffer for what is written
 to it

The stream buffer was 1.2 times the input; incompressible data, tight
bounds and small inputs write more than that (Huffman tree, exact values).
---
 include/sz_compression_utils.hpp |  4 ++++
 src/sz_compress_3d.cpp           | 24 ++++++++++++++++--------
 src/sz_compression_utils.cpp     |  9 +++++++--
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..03c606e 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -120,4 +120,8 @@ build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
+// upper bound on the number of bytes touched by Huffman_encode_tree_and_data
+size_t
+Huffman_max_encoded_size(size_t state_num, size_t num_elements);
+
 #endif
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..7c0380d 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -95,8 +95,10 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_unpredictable_count = reg_unpredictable_data_pos - reg_unpredictable_data;
+	size_t est_size = 64 + sizeof(mean_info) + unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ reg_unpredictable_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +214,10 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_unpredictable_count = reg_unpredictable_data_pos - reg_unpredictable_data;
+	size_t est_size = 64 + sizeof(mean_info) + unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ reg_unpredictable_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -411,8 +415,10 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_unpredictable_count = reg_unpredictable_data_pos - reg_unpredictable_data;
+	size_t est_size = 64 + sizeof(mean_info) + unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ reg_unpredictable_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -542,8 +548,10 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_unpredictable_count = reg_unpredictable_data_pos - reg_unpredictable_data;
+	size_t est_size = 64 + sizeof(mean_info) + unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ reg_unpredictable_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..a7b7efc 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -81,5 +81,10 @@ Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elem
 	SZ_ReleaseHuffman(huffman);
 }
 
-
-
+size_t
+Huffman_max_encoded_size(size_t state_num, size_t num_elements){
+	// serialized tree: at most 13 bytes for each of the (2*leaves - 1) nodes
+	size_t leaves = MIN(state_num, num_elements);
+	// codes: at most ceil(log2(state_num)) bits per element on average; the encoder writes in 8-byte units
+	return 64 + 26 * leaves + 4 * num_elements;
+}
-- 
2.43.0


From cb96f815768173c7f3c7b6062b92d52e879dd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 02/23] fix: leave room for every value being unpredictable

The array of exactly stored values held 5% of the input, but any number
of values can be unpredictable (noise, tight bounds).
---
 src/sz_compress_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 7c0380d..a98a1a9 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -86,7 +86,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -405,7 +405,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -539,7 +539,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
-- 
2.43.0


From 5ec1bbcee47a1ddef8d54908df31c52f7a5a6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 03/23] fix: always advance when sampling the mean of a tiny 3D
 array

For shapes such as (4,1,1) or (2,2,1) each step went forward by 2 and
back by 2, so sz_compress_3d never returned.
---
 include/sz_optimize_quant_intervals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sz_optimize_quant_intervals.hpp b/include/sz_optimize_quant_intervals.hpp
index 896ec65..739f050 100644
--- a/include/sz_optimize_quant_intervals.hpp
+++ b/include/sz_optimize_quant_intervals.hpp
@@ -40,6 +40,8 @@ float
 sample_rough_mean_3d(const T * data, size_t r1, size_t r2, size_t r3, size_t sample_distance){
 	double mean = 0;
 	size_t len = r1 * r2 * r3;
+	// a step moves back by up to 2, so anything shorter may not advance
+	if(sample_distance < 3) sample_distance = 3;
 	const T * data_pos = data;
 	size_t offset_count = 0;
 	size_t offset_count_2 = 0;
-- 
2.43.0


From a784577c4f1b569cc6a81ee1eb39f86b14c87bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 04/23] fix: skip exactly stored values by their own size in
 the 2D/3D decoders

They were skipped as floats, so double streams with any exactly stored
value were misread.
---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From 6647cbf6049f7abd49374c99db1b0784796ff62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 05/23] fix: compress all-zero data with a pointwise relative
 bound

The working precision came from log2(0), so zeros were decompressed to
infinity.
---
 src/sz_compress_pwr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..648454e 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0; // all zeros: no logarithm to take
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
-- 
2.43.0


From 4b55314b6d72f234b261acd220770b8b5d65bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 06/23] fix: keep the zero mark apart from values with a zero
 relative bound

With per-point relative bounds the smallest value decompressed to 0 when
its own bound was 0, because the mark for zero equalled its logarithm.
---
 src/sz_compress_pwr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 648454e..c6951b2 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -98,6 +98,8 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
 	}
+	// keep the mark for zero strictly below every non-zero value, also when a bound is (nearly) 0
+	threshold = std::nextafter(threshold, -std::numeric_limits<T>::infinity());
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = threshold;
-- 
2.43.0


From eae673f25176195a3ff362eacab34fa3f4fe3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 07/23] fix: leave room for rounding between zero and the
 smallest magnitude

A zero decompressed to the value of the threshold (which stands for the
smallest magnitude) whenever rounding in the logarithmic domain exceeded
a ten-thousandth of the working precision.
---
 src/sz_compress_pwr.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index c6951b2..b581c06 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -43,14 +43,15 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 3*log_precision;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	// half way between the highest decompressed zero and the lowest decompressed non-zero value
+	T threshold = min_log_data - 1.5*log_precision;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
-- 
2.43.0


From dbfd35fcf2190cb3f419ea16eb4b7a9e73c929fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 08/23] fix: size the vector-field stream buffers for what is
 written to them

---
 src/sz_compress_cp_preserve_2d.cpp          | 19 ++++++++++++-------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  3 ++-
 src/sz_compress_cp_preserve_3d.cpp          | 12 ++++++++----
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..5d87f7e 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_max_encoded_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_max_encoded_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,8 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + unpred_data.size()*sizeof(T) + Huffman_max_encoded_size(2*1024, 2*num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +962,8 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + 2*sign_map_size + unpred_data.size()*sizeof(T) + Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1226,8 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + unpred_data.size()*sizeof(T) + Huffman_max_encoded_size(2*1024, 2*num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1515,8 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + unpred_data.size()*sizeof(T) + Huffman_max_encoded_size(2*1024, 2*num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1799,8 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + quantizer.size_est() + Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..d91d40a 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,8 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + 2*sign_map_size + unpred_data.size()*sizeof(T) + Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..ce9c2c3 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,8 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + 3*sign_map_size + eb_zero_data.size()*sizeof(T) + Huffman_max_encoded_size(2*256, num_elements) + Huffman_max_encoded_size(2*capacity, data_quant_index_pos - data_quant_index);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +934,8 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + 3*sign_map_size + eb_zero_data.size()*sizeof(T) + Huffman_max_encoded_size(2*256, num_elements) + Huffman_max_encoded_size(2*capacity, data_quant_index_pos - data_quant_index);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1117,8 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	size_t max_compressed_size = 64 + sign_map_size + eb_zero_data.size()*sizeof(T) + Huffman_max_encoded_size(2*256, n) + Huffman_max_encoded_size(2*capacity, data_quant_index_pos - data_quant_index);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1455,8 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t max_compressed_size = 64 + unpred_data.size()*sizeof(T) + Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, data_quant_index_pos - data_quant_index);
+	unsigned char * compressed = (unsigned char *) malloc(max_compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
-- 
2.43.0


From f500861926d0be0442d97330fe053ed364656d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 09/23] fix: decompress interpolation-based streams of tiny
 fields

---
 src/sz_decompress_cp_preserve_2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..a090ca1 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -333,7 +333,8 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	// upper bound: mark, radius, count and at most every value stored exactly
+	size_t remaining_length = sizeof(uint8_t) + sizeof(int) + sizeof(size_t) + 2*num_elements*sizeof(T);
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0


From a11cab6dd5292fe2b83a3e8b68fcae07a76285b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 10/23] fix: count the threshold in the size of decoupled
 vector-field streams

---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 5d87f7e..9dec4f1 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 6527e0e5b36ec39d4af9d40eb426eb3c901a5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 11/23] fix: quantise error bounds with index 0 to zero

---
 include/sz_cp_preserve_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..4d28b3f 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,6 +17,11 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
+	// index 0 stands for a zero error bound
+	if(id == 0){
+		eb = 0;
+		return 0;
+	}
 	eb = pow(base, id) * threshold;
 	return id;
 }
-- 
2.43.0


From 04d87faa5d52f8ff95a4070a2f21d889783ec9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 12/23] fix: keep quantisation indices that do not fit in an
 int out of range

---
 include/sz3_utils.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..43f12ab 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,8 +12,9 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before converting: the quotient may not fit in an int
+        if (fabs(diff) / eb + 1 < this->radius * 2) {
+            int quant_index = (int) (fabs(diff) / eb) + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -45,8 +46,9 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before converting: the quotient may not fit in an int
+        if (fabs(diff) / eb + 1 < this->radius * 2) {
+            int quant_index = (int) (fabs(diff) / eb) + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -81,8 +83,9 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before converting: the quotient may not fit in an int
+        if (fabs(diff) / eb + 1 < this->radius * 2) {
+            int quant_index = (int) (fabs(diff) / eb) + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
-- 
2.43.0


From 330e4a4bc08426ab7fee8b5698c64e8222861f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 13/23] fix: check the error after quantisation in the relaxed
 variant

---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 9dec4f1..54b77d4 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1450,6 +1450,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(std::abs(decompressed[k] - cur_data) > abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From 21627214540abcd299aa3dd7c1942d1085549573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 14/23] fix: keep the mark for zero apart from small values in
 the log domain

---
 include/sz_cp_preserve_utils.hpp     |  3 ++-
 include/sz_def.hpp                   |  4 ++++
 src/sz_decompress_cp_preserve_2d.cpp | 12 ++++++------
 src/sz_decompress_cp_preserve_3d.cpp | 12 ++++++------
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 4d28b3f..92234e4 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -7,6 +7,7 @@
 #include <cmath>
 #include <cstdio>
 #include <cstdlib>
+#include "sz_def.hpp"
 
 template<typename T>
 using unpred_vec = std::vector<T>;
@@ -147,7 +148,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = LOG_OF_ZERO;
 		}
 	}
 	return log_data;
diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 9d28edf..2599640 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -12,6 +12,10 @@
 
 using namespace std;
 
+// stands for log2(0): below the logarithm of any float, by more than any error bound in the log domain
+#define LOG_OF_ZERO -200
+#define LOG_OF_ZERO_LIMIT -190
+
 template <typename T>
 union fp_int;
 
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index a090ca1..0599f84 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -85,12 +85,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	U = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
-		if(U[i] < -99) U[i] = 0;
+		if(U[i] < LOG_OF_ZERO_LIMIT) U[i] = 0;
 		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
-		if(V[i] < -99) V[i] = 0;
+		if(V[i] < LOG_OF_ZERO_LIMIT) V[i] = 0;
 		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 	}
 	free(sign_map_u);
@@ -210,8 +210,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : log2f(fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : log2f(fabs(data_V));
+				*U_pos = (data_U == 0) ? LOG_OF_ZERO : log2f(fabs(data_U));
+				*V_pos = (data_V == 0) ? LOG_OF_ZERO : log2f(fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
@@ -239,9 +239,9 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 			V[i] = *(unpred_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(U[i] < LOG_OF_ZERO_LIMIT) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(V[i] < LOG_OF_ZERO_LIMIT) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..8f5eb21 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -58,7 +58,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? LOG_OF_ZERO : log2f(fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -94,11 +94,11 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 			W[i] = *(eb_zero_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(U[i] < LOG_OF_ZERO_LIMIT) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(V[i] < LOG_OF_ZERO_LIMIT) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
-			if(W[i] < -99) W[i] = 0;
+			if(W[i] < LOG_OF_ZERO_LIMIT) W[i] = 0;
 			else W[i] = sign_map_w[i] ? exp2(W[i]) : -exp2(W[i]);
 		}
 	}
@@ -157,7 +157,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? LOG_OF_ZERO : log2f(fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
@@ -185,7 +185,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		}
 		else{
 			for(int p=0; p<3; p++){
-				if(data[3*i + p] < -99) data[3*i + p] = 0;
+				if(data[3*i + p] < LOG_OF_ZERO_LIMIT) data[3*i + p] = 0;
 				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
 			}
 		}
-- 
2.43.0


From 5708a7a9f6b842747f792c6b5584de6b294c718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 15/23] fix: detect critical points without cancellation in the
 relaxed variant

---
 src/sz_compress_cp_preserve_2d.cpp | 52 ++++++------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 54b77d4..b7a1f7e 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1252,52 +1252,18 @@ template
 unsigned char *
 sz_compress_cp_preserve_2d_online_abs(const double * U, const double * V, size_t r1, size_t r2, size_t& compressed_size, bool transpose, double max_pwr_eb);
 
-template <class T>
-inline T det2__(const T A[2][2])
-{
-  return A[0][0] * A[1][1] - A[1][0] * A[0][1];
-}
-
-template <class T>
-inline T
-solve_linear2x2__(const T A[2][2], const T b[2], T x[2])
-{
-  const T D  = det2__(A),
-          Dx = b[0]   *A[1][1] - A[0][1]*b[1],
-          Dy = A[0][0]*b[1]    - b[0]   *A[1][0];
-
-  x[0] = Dx / D; 
-  x[1] = Dy / D;
-  
-  return D;
-}
-
-template <class T>
-inline bool 
-inverse_lerp_s2v2__(const T V[3][2], T mu[3])
-{
-  const T A[2][2] = {
-    {V[0][0] - V[2][0], V[1][0] - V[2][0]},
-    {V[0][1] - V[2][1], V[1][1] - V[2][1]}
-  };
-
-  const T b[2] = {-V[2][0], -V[2][1]};
-
-  solve_linear2x2__(A, b, mu);
-  mu[2] = 1.0 - mu[0] - mu[1];
-
-  return mu[0] >= 0 && mu[0] <= 1.0 &&
-    mu[1] >= 0 && mu[1] <= 1.0 &&
-    mu[2] >= 0 && mu[2] <= 1.0;
-}
-
+// the products are the barycentric coordinates of the origin up to a common factor;
+// computed without differences of vectors, which would cancel when magnitudes differ
 template<typename T>
 static int 
 check_cp(T v[3][2]){
-  T mu[3]; // check intersection
-  bool succ2 = inverse_lerp_s2v2__(v, mu);
-  if (!succ2) return -1;
-	return 1;
+	double M0 = (double) v[2][0]*v[0][1] - (double) v[0][0]*v[2][1];
+	double M1 = (double) v[1][0]*v[2][1] - (double) v[2][0]*v[1][1];
+	double M2 = (double) v[0][0]*v[1][1] - (double) v[1][0]*v[0][1];
+	if(M0 + M1 + M2 == 0) return -1;
+	bool non_negative = (M0 >= 0) && (M1 >= 0) && (M2 >= 0);
+	bool non_positive = (M0 <= 0) && (M1 <= 0) && (M2 <= 0);
+	return (non_negative || non_positive) ? 1 : -1;
 }
 
 template<typename T>
-- 
2.43.0


From 5725f0927f254cfa3fcef1b288b3176610b5c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 16/23] fix: find critical points of bilinear cells whose
 components depend on one coordinate only

---
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 50 ++++++++-------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index d91d40a..6fe3988 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -597,39 +597,25 @@ derive_cp_eb_bilinear_online(const double u0, const double u1, const double u2,
 int inverse_bilinear_interpolation(const double A0, const double B0, const double C0, const double D0,
 	const double A1, const double B1, const double C1, const double D1, double pos[2][2], double J[2][2][2])
 {
-  double M0[4] = {-B0, -D0, -B1, -D1}, // stored in row major
-    M1[4] = {A0, C0, A1, C1}; // (yM1 - M0)v = 0, v = {x, 1}^T
-
-  double detM1 = A0*C1 - A1*C0; // TODO: check if detM1==0
-  double invM1[4] = {C1/detM1, -C0/detM1, -A1/detM1, A0/detM1};  
-  // Q = invM1*M0
-  double Q[4] = {
-    invM1[0]*M0[0] + invM1[1]*M0[2], 
-    invM1[0]*M0[1] + invM1[1]*M0[3], 
-    invM1[2]*M0[0] + invM1[3]*M0[2], 
-    invM1[2]*M0[1] + invM1[3]*M0[3]
-  };
-  // compute y=eig(Q)
-  double trace = Q[0] + Q[3];
-  double det = Q[0]*Q[3] - Q[1]*Q[2];
-
-  if(trace*trace/4 - det < 0) return 0;
-
-  double lambda[2] = {
-    static_cast<double>(trace/2 + std::sqrt(trace*trace/4 - det)), 
-    static_cast<double>(trace/2 - std::sqrt(trace*trace/4 - det))
-  }; 
-
-  double x[2] = {
-    (lambda[0]-Q[3])/Q[2], 
-    (lambda[1]-Q[3])/Q[2]
-  }; 
-  double y[2] = {
-    lambda[0], 
-    lambda[1]
-  };
+  // eliminating x from Ai*x*y + Bi*x + Ci*y + Di = 0 leaves a*y^2 + b*y + c = 0,
+  // which also covers components that do not depend on x or on y
+  double a = A1*C0 - A0*C1;
+  double b = B1*C0 + A1*D0 - B0*C1 - A0*D1;
+  double c = B1*D0 - B0*D1;
+  double delta = b*b - 4*a*c;
+  if(delta < 0) return 0;
+  double q = -0.5*(b + ((b < 0) ? -std::sqrt(delta) : std::sqrt(delta)));
+  double x[2], y[2];
+  int num_y = 0;
+  if(a != 0) y[num_y ++] = q / a;
+  if(q != 0) y[num_y ++] = c / q;
+  if((num_y == 2) && (y[0] < y[1])) std::swap(y[0], y[1]);
+  for (int i=0; i<num_y; i++){
+    double denominator0 = A0 * y[i] + B0, denominator1 = A1 * y[i] + B1;
+    x[i] = (fabs(denominator0) > fabs(denominator1)) ? -(C0 * y[i] + D0) / denominator0 : -(C1 * y[i] + D1) / denominator1;
+  }
   int nroots = 0;
-  for (int i=0; i<2; i++) // check the two roots 
+  for (int i=0; i<num_y; i++) // check the roots 
     if (x[i]>=0 && x[i]<1 && y[i]>=0 && y[i]<1) {
       pos[nroots][0] = x[i];
       pos[nroots][1] = y[i];
-- 
2.43.0


From 3ec8ca2eab1a3f8bf2c01e903ef7d95f40f269a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:03 +0000
Subject: [PATCH 17/23] fix: encode and decode empty symbol sequences

---
 src/sz_compression_utils.cpp   | 11 ++++++++++-
 src/sz_decompression_utils.cpp |  8 +++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index a7b7efc..e774e6d 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,8 +60,17 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
-	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
+	if(num_elements == 0){
+		// nothing to code: no tree and no codes
+		unsigned int empty_tree_size = 0;
+		size_t empty_array_size = 0;
+		write_variable_to_dst(compressed_pos, node_count);
+		write_variable_to_dst(compressed_pos, empty_tree_size);
+		write_variable_to_dst(compressed_pos, empty_array_size);
+		return;
+	}
+	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t i = 0;
 	for (i = 0; i < state_num; i++)
 		if (huffman->code[i]) node_count++; 
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..6f9f5fa 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,11 +91,17 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
-	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
 	unsigned int tree_size = 0;
 	read_variable_from_src(compressed_pos, tree_size);
+	if(node_count == 0){
+		// nothing was coded
+		size_t empty_array_size = 0;
+		read_variable_from_src(compressed_pos, empty_array_size);
+		return (int *) malloc(sizeof(int));
+	}
+	HuffmanTree* huffman = createHuffmanTree(state_num);
 	node root = reconstruct_HuffTree_from_bytes_anyStates(huffman, compressed_pos, node_count);
 	compressed_pos += tree_size;
 	size_t type_array_size = 0;
-- 
2.43.0


From 231b696e868f23a9f86286d33b11b1dd3339c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:48 +0000
Subject: [PATCH 18/23] fix: index signs of unstructured data by component

---
 src/sz_decompress_cp_preserve_3d.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 8f5eb21..f61fd2a 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -175,18 +175,16 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 	}
 	printf("recover data done\n");
 	eb_zero_data_pos = eb_zero_data;
-	unsigned char * sign_pos = sign_map;
 	for(int i=0; i<n; i++){
 		if(unpred_data_indices.count(i)){
 			for(int p=0; p<3; p++){
 				data[3*i + p] = *(eb_zero_data_pos++);
 			}
-			sign_pos += 3;
 		}
 		else{
 			for(int p=0; p<3; p++){
 				if(data[3*i + p] < LOG_OF_ZERO_LIMIT) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = sign_map[3*i + p] ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
 			}
 		}
 	}
-- 
2.43.0


From e741b8ee9fb8831fd907a0325da37438072fd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 19/23] fix: make room for the header and last code in
 encode_withTree

---
 src/sz_huffman.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index b828687..ef4bf70 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -660,7 +660,8 @@ void encode_withTree(HuffmanTree* huffmanTree, const int *s, size_t length, unsi
 	nodeCount = nodeCount*2-1;
 	unsigned int treeByteSize = convert_HuffTree_to_bytes_anyStates(huffmanTree,nodeCount, &treeBytes);
 
-	*out = (unsigned char*)malloc(length*sizeof(int)+treeByteSize);
+	// two ints in front of the tree; encode() writes 8 bytes at a time
+	*out = (unsigned char*)malloc(2*sizeof(int)+treeByteSize+length*sizeof(int)+8);
 	intToBytes_bigEndian(buffer, nodeCount);
 	memcpy(*out, buffer, 4);
 	intToBytes_bigEndian(buffer, huffmanTree->stateNum/2); //real number of intervals
-- 
2.43.0


From d08358bc01b2aafb8f32f772424bc223212d47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 20/23] fix: keep the queue of the Huffman tree in order when
 its front is removed

---
 src/sz_huffman.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index ef4bf70..1f84822 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -129,7 +129,7 @@ void qinsert(HuffmanTree *huffmanTree, node n)
  
 node qremove(HuffmanTree* huffmanTree)
 {
-	int i, l;
+	int i, j, l;
 	node n = huffmanTree->qq[i = 1];
  
 	if (huffmanTree->qend < 2) return 0;
@@ -139,7 +139,11 @@ node qremove(HuffmanTree* huffmanTree)
 		if (l + 1 < huffmanTree->qend && huffmanTree->qq[l + 1]->freq < huffmanTree->qq[l]->freq) l++;
 		huffmanTree->qq[i] = huffmanTree->qq[l], i = l;
 	}
-	huffmanTree->qq[i] = huffmanTree->qq[huffmanTree->qend];
+	// the last node fills the hole, which may lie below a heavier node
+	node last = huffmanTree->qq[huffmanTree->qend];
+	while ((j = (i>>1)) && huffmanTree->qq[j]->freq > last->freq)
+		huffmanTree->qq[i] = huffmanTree->qq[j], i = j;
+	huffmanTree->qq[i] = last;
 	return n;
 }
  
-- 
2.43.0


From 4704265a24e6dcdbddff14244bb2ea2958edcbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 21/23] fix: take logarithms of doubles beyond the range of
 float in double precision

---
 include/sz_cp_preserve_utils.hpp     | 13 ++++++++++++-
 src/sz_decompress_cp_preserve_2d.cpp |  5 +++--
 src/sz_decompress_cp_preserve_3d.cpp |  5 +++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 92234e4..afbc102 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -136,6 +136,17 @@ inline void accumulate(const T value, double& positive, double& negative){
 	else negative += - value;
 }
 
+// log2 of the magnitude of non-zero data, in single precision unless the magnitude is beyond the range of float
+inline float log2_of_magnitude(const float data){
+	return log2f(fabs(data));
+}
+
+inline double log2_of_magnitude(const double data){
+	double magnitude = fabs(data);
+	if((magnitude < std::numeric_limits<float>::min()) || (magnitude > std::numeric_limits<float>::max())) return log2(magnitude);
+	return log2f(magnitude);
+}
+
 template<typename T>
 T *
 log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false){
@@ -144,7 +155,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		sign[i] = 0;
 		if(data[i] != 0){
 			sign[i] = (data[i] > 0);
-			log_data[i] = (data[i] > 0) ? log2f(data[i]) : log2f(-data[i]); 
+			log_data[i] = log2_of_magnitude(data[i]);
 		}
 		else{
 			sign[i] = 0;
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 0599f84..3a2187c 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 #include "sz3_utils.hpp"
@@ -210,8 +211,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? LOG_OF_ZERO : log2f(fabs(data_U));
-				*V_pos = (data_V == 0) ? LOG_OF_ZERO : log2f(fabs(data_V));
+				*U_pos = (data_U == 0) ? LOG_OF_ZERO : log2_of_magnitude(data_U);
+				*V_pos = (data_V == 0) ? LOG_OF_ZERO : log2_of_magnitude(data_V);
 				eb_quant_index_pos ++;
 			}
 			else{
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index f61fd2a..8f723c5 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -1,6 +1,7 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
 #include "sz_decompress_block_processing.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include <limits>
 #include <unordered_set>
 
@@ -58,7 +59,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? LOG_OF_ZERO : log2f(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? LOG_OF_ZERO : log2_of_magnitude(cur_data);
 					}
 					eb_quant_index_pos ++;
 				}
@@ -157,7 +158,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? LOG_OF_ZERO : log2f(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? LOG_OF_ZERO : log2_of_magnitude(cur_data);
 			}
 			eb_quant_index_pos ++;
 		}
-- 
2.43.0


From 91ebee76a1a5faf3a78780d45e3ae44aa5facdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 22/23] fix: use a zero bound where the derivation of an error
 bound overflows

---
 include/sz_cp_preserve_utils.hpp            |  8 ++++++++
 src/sz_compress_cp_preserve_2d.cpp          | 20 ++++++++++----------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  2 +-
 src/sz_compress_cp_preserve_3d.cpp          | 10 +++++-----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index afbc102..2b2ed7b 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -12,6 +12,12 @@
 template<typename T>
 using unpred_vec = std::vector<T>;
 
+// tighten an error bound to the one derived for a cell, which is not a number when its computation overflows
+inline double tighten_eb(const double eb, const double derived_eb){
+	if(std::isnan(derived_eb)) return 0;
+	return (derived_eb < eb) ? derived_eb : eb;
+}
+
 inline int eb_exponential_quantize(double& eb, const int base, const double log_of_base, const double threshold=std::numeric_limits<float>::epsilon()){
 	if(eb <= threshold){
 		eb = 0;
@@ -127,6 +133,8 @@ inline float acbrt1(float x0) {
 inline float max_eb_to_keep_sign_3d_offline(const float positive, const float negative){
 	float P = acbrt1(positive);
 	float N = acbrt1(negative);
+	// the products are beyond the range of float
+	if(!std::isfinite(P + N)) return 0;
 	return fabs(P - N)/(P + N);
 }
 
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index b7a1f7e..d6a5e3f 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -198,9 +198,9 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 				double max_cur_eb = max_eb_to_keep_position_and_type(U_row_pos[offset[0]], U_row_pos[offset[1]], U_row_pos[offset[2]],
 					V_row_pos[offset[0]], V_row_pos[offset[1]], V_row_pos[offset[2]], X[0][1], X[1][1], X[2][1],
 					X[0][0], X[1][0], X[2][0]);
-				eb_row_pos[offset[0]] = MINF(eb_row_pos[offset[0]], max_cur_eb);
-				eb_row_pos[offset[1]] = MINF(eb_row_pos[offset[1]], max_cur_eb);
-				eb_row_pos[offset[2]] = MINF(eb_row_pos[offset[2]], max_cur_eb);
+				eb_row_pos[offset[0]] = tighten_eb(eb_row_pos[offset[0]], max_cur_eb);
+				eb_row_pos[offset[1]] = tighten_eb(eb_row_pos[offset[1]], max_cur_eb);
+				eb_row_pos[offset[2]] = tighten_eb(eb_row_pos[offset[2]], max_cur_eb);
 			}
 			U_row_pos ++;
 			V_row_pos ++;
@@ -298,9 +298,9 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 				double max_cur_eb = max_eb_to_keep_position_and_type(U_row_pos[offset[0]], U_row_pos[offset[1]], U_row_pos[offset[2]],
 					V_row_pos[offset[0]], V_row_pos[offset[1]], V_row_pos[offset[2]], X[0][1], X[1][1], X[2][1],
 					X[0][0], X[1][0], X[2][0]);
-				eb_row_pos[offset[0]] = MINF(eb_row_pos[offset[0]], max_cur_eb);
-				eb_row_pos[offset[1]] = MINF(eb_row_pos[offset[1]], max_cur_eb);
-				eb_row_pos[offset[2]] = MINF(eb_row_pos[offset[2]], max_cur_eb);
+				eb_row_pos[offset[0]] = tighten_eb(eb_row_pos[offset[0]], max_cur_eb);
+				eb_row_pos[offset[1]] = tighten_eb(eb_row_pos[offset[1]], max_cur_eb);
+				eb_row_pos[offset[2]] = tighten_eb(eb_row_pos[offset[2]], max_cur_eb);
 			}
 			U_row_pos ++;
 			V_row_pos ++;
@@ -618,7 +618,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 					}
 				}
 				if(in_mesh){
-					required_eb = MINF(required_eb, derive_cp_eb_for_positions_online(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+					required_eb = tighten_eb(required_eb, derive_cp_eb_for_positions_online(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 						cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0], inv_C[k]));
 				}
 			}
@@ -879,7 +879,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 					// int index = simplex_offset[k] + 2*i*r2 + 2*j;
 					// conds[index].computed = false;
 					// count[index] ++;
-					required_eb = MINF(required_eb, derive_cp_eb_for_positions_online(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+					required_eb = tighten_eb(required_eb, derive_cp_eb_for_positions_online(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 						cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0], inv_C[k]));
 				}
 			}
@@ -1069,7 +1069,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 					}
 					if(in_mesh){
 						// derive abs eb
-						required_eb = MINF(required_eb, derive_cp_eb_for_positions_online_abs(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+						required_eb = tighten_eb(required_eb, derive_cp_eb_for_positions_online_abs(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 							cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0]));
 					}
 				}				
@@ -1528,7 +1528,7 @@ derive_eb_abs_online_2d(T * cur_U_pos, T * cur_V_pos, int i, int j, size_t r1, s
 		}
 		if(in_mesh){
 			// derive abs eb
-			required_eb = MINF(required_eb, derive_cp_eb_for_positions_online_abs(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
+			required_eb = tighten_eb(required_eb, derive_cp_eb_for_positions_online_abs(cur_U_pos[offsets[k]], cur_U_pos[offsets[k+1]], cur_U_pos[0],
 				cur_V_pos[offsets[k]], cur_V_pos[offsets[k+1]], cur_V_pos[0]));
 		}
 	}				
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 6fe3988..acc61e4 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -829,7 +829,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
                     bool verbose = false;
                     auto derived_eb = derive_cp_eb_bilinear_online(cur_U_pos[offsets[2*k]], cur_U_pos[offsets[2*k+1]], cur_U_pos[offsets[2*k+2]], cur_U_pos[0],
                         cur_V_pos[offsets[2*k]], cur_V_pos[offsets[2*k+1]], cur_V_pos[offsets[2*k+2]], cur_V_pos[0], verbose);
-					required_eb = MINF(required_eb, derived_eb);
+					required_eb = tighten_eb(required_eb, derived_eb);
 				}
 			}
 			eb[index_eb++] = required_eb;
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index ce9c2c3..fcda660 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -392,9 +392,9 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 								cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 								cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 								cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos);
-						eb_offline_compute_pos[0] = MIN(eb_offline_compute_pos[0], cur_eb);
+						eb_offline_compute_pos[0] = tighten_eb(eb_offline_compute_pos[0], cur_eb);
 						for(int ind=0; ind<3; ind++){
-							eb_offline_compute_pos[offset[n][ind]] = MIN(eb_offline_compute_pos[offset[n][ind]], cur_eb);
+							eb_offline_compute_pos[offset[n][ind]] = tighten_eb(eb_offline_compute_pos[offset[n][ind]], cur_eb);
 						}
 					}
 					eb_offline_compute_pos ++;
@@ -830,7 +830,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 					}
 					if(in_mesh){
 						int index = simplex_offset[n] + i*6*dim0_offset + j*6*dim1_offset + k*6; // TODO: define index for each simplex
-						required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online(
+						required_eb = tighten_eb(required_eb, max_eb_to_keep_position_and_type_3d_online(
 							cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 							cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 							cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos));
@@ -1048,7 +1048,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 			std::vector<int> inds{0, 1, 2, 3};
 			inds.erase(inds.begin() + pos);
 			const int data_offset[4] = {t.vertex[inds[0]]*3, t.vertex[inds[1]]*3, t.vertex[inds[2]]*3, t.vertex[pos]*3};
-			required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online(
+			required_eb = tighten_eb(required_eb, max_eb_to_keep_position_and_type_3d_online(
 				dec_data[data_offset[0]], dec_data[data_offset[1]], dec_data[data_offset[2]], dec_data[data_offset[3]],
 				dec_data[data_offset[0] + 1], dec_data[data_offset[1] + 1], dec_data[data_offset[2] + 1], dec_data[data_offset[3] + 1],
 				dec_data[data_offset[0] + 2], dec_data[data_offset[1] + 2], dec_data[data_offset[2] + 2], dec_data[data_offset[3] + 2]));
@@ -1372,7 +1372,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 							}
 							else{
 								// std::cout << required_eb << " " << max_abs_eb << std::endl;
-								required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online_abs(
+								required_eb = tighten_eb(required_eb, max_eb_to_keep_position_and_type_3d_online_abs(
 									cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 									cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 									cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos));
-- 
2.43.0


From 900c982916eb64f2d5f328b0ec9748bf97c4bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 23/23] fix: release the coded error bounds in the decoupled
 and bilinear variants

---
 src/sz_compress_cp_preserve_2d.cpp          | 2 ++
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp        | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index d6a5e3f..dd34e1b 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -255,6 +255,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	write_array_to_dst(compressed_pos, compressed_u, compressed_u_size);
 	printf("compressed_pos = %ld\n", compressed_pos - compressed);
 	write_array_to_dst(compressed_pos, compressed_v, compressed_v_size);
+	free(eb_quant_index);
 	free(compressed_eb);
 	free(compressed_u);
 	free(compressed_v);
@@ -360,6 +361,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 	write_array_to_dst(compressed_pos, compressed_u, compressed_u_size);
 	write_array_to_dst(compressed_pos, compressed_v, compressed_v_size);
 	free(sign_map_compressed);
+	free(eb_quant_index);
 	free(compressed_eb);
 	free(compressed_u);
 	free(compressed_v);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index acc61e4..8e9b213 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1032,7 +1032,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	}
     // printf("#Failed verification = %d\n", failed_verification);
 	// writefile("eb_2d.dat", eb, num_elements);
-	// free(eb);
+	free(eb);
 	free(log_U);
 	free(log_V);
 	free(decompressed_U);
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 3a2187c..4636a34 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -41,6 +41,7 @@ sz_decompress_cp_preserve_2d_offline(const unsigned char * compressed, size_t r1
 		// else eb[i] = type[num_elements + i] * 1e-2;
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
+	free(type);
 	free(eb);
 }
 
@@ -96,6 +97,7 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	}
 	free(sign_map_u);
 	free(sign_map_v);
+	free(type);
 	free(eb);
 }
 
-- 
2.43.0

