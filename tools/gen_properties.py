#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TESTS = "The existing runs use 5 analytic 2D fields x 6 shapes x 3 bounds through three command-line programs and mostly look at whether the program finishes and writes its output; "

prop("C01", "2D error-bounded compression honours its absolute error bound",
 "For any finite 2D float array, shape, block size and positive absolute bound, decompressing the compressed stream with the same shape returns an array of the same size in which every value differs from its original by at most the bound. Values that cannot be predicted within the bound come back exactly, so the bound holds for constant, smooth, noisy, huge-valued and discontinuous data alike.",
 ["inputs", "configurations"], "all finite 2D float arrays of any shape (including 1xN, Nx1 and sizes that are no multiple of the block), block sizes >=2 and bounds from far below to far above the value range",
 TESTS + "plain fixed-bound 2D compression is reached only through one pointwise-relative program, and the outcome depends on every value and on which prediction path each block takes.",
 ["src/sz_compress_3d.cpp", "src/sz_decompress_3d.cpp", "include/sz_compress_block_processing.hpp", "include/sz_decompress_block_processing.hpp", "include/sz_compression_utils.hpp", "include/sz_decompression_utils.hpp", "include/sz_regression_utils.hpp", "include/sz_prediction.hpp"],
 [("quantise against the decompressed neighbours and re-check the bound", "include/sz_compression_utils.hpp: quantize"), ("per-block choice of regression or Lorenzo", "src/sz_compress_3d.cpp"), ("mirror-image reconstruction", "src/sz_decompress_3d.cpp")],
 ["sz_compress_2d<float>", "sz_decompress_2d<float>"],
 [("prediction buffer", "decompressed values of the current band of blocks, identical on both sides", "src/sz_compress_3d.cpp, src/sz_decompress_3d.cpp")])

prop("C02", "3D error-bounded compression honours its absolute error bound",
 "For any finite 3D float or double array, shape, block size, block-independence mode and positive absolute bound, decompressing the compressed stream with the same shape returns every value within the bound of its original. This holds whether or not the compressor chooses to represent a dominant mean value specially and however many quantisation intervals it chooses.",
 ["inputs", "configurations"], "all finite 3D arrays in single and double precision, all shapes (thin, odd, smaller than a block), both block modes, block sizes >=2, bounds across the value range",
 "No existing test compresses a 3D field at all; the adaptive interval count, mean mode and both block modes are never run.",
 ["src/sz_compress_3d.cpp", "src/sz_decompress_3d.cpp", "include/sz_optimize_quant_intervals.hpp", "include/sz_compress_block_processing.hpp", "include/sz_decompress_block_processing.hpp", "include/sz_regression_utils.hpp"],
 [("adaptive quantisation capacity and mean detection", "include/sz_optimize_quant_intervals.hpp"), ("block-dependent and block-independent prediction", "src/sz_compress_3d.cpp"), ("mirror-image reconstruction", "src/sz_decompress_3d.cpp")],
 ["sz_compress_3d<float|double>", "sz_decompress_3d<float|double>"])

prop("C03", "Per-point error bounds are honoured point by point",
 "When 2D data (float or double) is compressed with one absolute bound per point, decompression with the same bounds returns every point within its own bound, however sharply the bounds vary between neighbours. Points whose bound is zero come back bit for bit.",
 ["inputs", "configurations"], "all finite 2D arrays with arbitrary non-negative per-point bounds, including all-zero, sparse-zero and bounds varying over many orders of magnitude",
 TESTS + "the per-point program uses a handful of bound layouts; zero bounds next to large ones, and bounds that differ from point to point by orders of magnitude, are not sampled.",
 ["src/sz_compress_3d.cpp", "src/sz_decompress_3d.cpp", "include/sz_compress_block_processing.hpp", "include/sz_decompress_block_processing.hpp"],
 [("zero bound stores the value verbatim", "include/sz_compress_block_processing.hpp: block_pred_and_quant_lorenzo_2d_with_eb"), ("bounds indexed by position on both sides", "src/sz_compress_3d.cpp, src/sz_decompress_3d.cpp")],
 ["sz_compress_2d_with_eb", "sz_decompress_2d_with_eb"])

prop("C04", "Pointwise-relative compression bounds every relative error and keeps signs",
 "With a pointwise relative bound, every decompressed value differs from its original by at most that fraction of the original's magnitude (up to single-precision rounding of the logarithm). Signs are kept and exact zeros come back as zeros, for any mix of magnitudes, signs and zeros.",
 ["inputs", "configurations"], "all 2D float arrays of finite normal values and zeros whose magnitudes span up to the whole float range, relative bounds well above the rounding of the logarithm and up to 1",
 TESTS + "the bound is relative to each value, so it depends on every magnitude, on zero handling and on the extreme value that sets the working precision.",
 ["src/sz_compress_pwr.cpp", "src/sz_decompress_pwr.cpp"],
 [("logarithmic transform with precision reserve", "src/sz_compress_pwr.cpp"), ("threshold below the smallest magnitude stands for zero", "src/sz_compress_pwr.cpp, src/sz_decompress_pwr.cpp"), ("sign bitmap", "src/sz_compress_pwr.cpp")],
 ["sz_compress_2d_pwr", "sz_decompress_2d_pwr"])

prop("C05", "Per-point relative bounds are honoured point by point",
 "With one relative bound per point, every decompressed value differs from its original by at most its own fraction of the original's magnitude (up to single-precision rounding of the logarithm). Signs are kept, zeros stay zeros and no non-zero value turns into zero.",
 ["inputs", "configurations"], "all 2D float arrays of finite normal values and zeros with arbitrary per-point relative bounds between 0 and 1",
 "No existing test runs this entry point.",
 ["src/sz_compress_pwr.cpp", "src/sz_decompress_pwr.cpp"],
 [("per-point logarithmic bounds returned to the caller", "src/sz_compress_pwr.cpp"), ("threshold value stands for zero", "src/sz_decompress_pwr.cpp")],
 ["sz_compress_2d_pwr_with_eb", "sz_decompress_2d_pwr_with_eb"])

FAM2 = ["src/sz_compress_cp_preserve_2d.cpp", "src/sz_decompress_cp_preserve_2d.cpp", "include/sz_cp_preserve_utils.hpp", "include/sz3_utils.hpp"]
prop("C06", "Absolute-bound 2D vector-field compression honours the user's bound",
 "For every absolute-error variant of critical-point-preserving 2D compression (Lorenzo-based, relaxed and interpolation-based), each component of each decompressed vector differs from the original by at most the absolute bound the user asked for. The result has the shape of the input in single and double precision.",
 ["inputs", "configurations"], "all finite vector fields (U,V), all shapes from 1x1 upward including 1xN and non-square, positive absolute bounds from tiny to larger than the data range, float and double",
 TESTS + "the 2D test program reports errors but nothing asserts the bound, and it never varies shape beyond six or precision beyond float.",
 FAM2,
 [("per-vertex bound never above the user's bound", "src/sz_compress_cp_preserve_2d.cpp"), ("bound re-checked after quantisation, exact storage otherwise", "src/sz_compress_cp_preserve_2d.cpp"), ("interpolation levels with half bounds", "src/sz_compress_cp_preserve_2d.cpp, include/sz3_utils.hpp")],
 ["sz_compress_cp_preserve_2d_online_abs", "sz_compress_cp_preserve_2d_online_abs_relax_FN", "sz3_compress_cp_preserve_2d_online_abs", "sz_decompress_cp_preserve_2d_online", "sz3_decompress_cp_preserve_2d_online"])

prop("C07", "Relative-bound 2D vector-field compression bounds relative error and keeps signs",
 "For every relative-error variant of critical-point-preserving 2D compression (decoupled and coupled, linear and logarithmic, triangular and bilinear), each decompressed component differs from the original by at most the user's fraction of its magnitude (up to single-precision rounding of logarithms in the logarithmic variants). Signs never flip and zero components come back as exactly zero.",
 ["inputs", "configurations"], "all finite vector fields with magnitudes in a range the logarithmic representation supports, any mix of signs and zeros, all shapes, relative bounds in (0,1], float and double",
 "Only the absolute interpolation variant is run by the existing tests; the six relative variants are never executed.",
 FAM2 + ["src/sz_compress_cp_preserve_2d_bilinear.cpp"],
 [("bound scales with each component's magnitude", "src/sz_compress_cp_preserve_2d.cpp"), ("sign bitmaps and exact storage of zeros in log variants", "src/sz_compress_cp_preserve_2d.cpp, src/sz_decompress_cp_preserve_2d.cpp")],
 ["sz_compress_cp_preserve_2d_offline(_log)", "sz_compress_cp_preserve_2d_online(_log)", "sz_compress_cp_preserve_2d_bilinear_online_log"])

prop("C08", "Absolute-bound 2D compression neither loses, moves nor invents critical points",
 "With any absolute-error variant, a triangle of the regular mesh that contains a critical point of the original piecewise-linear field keeps the values at its vertices bit for bit, so its critical points keep exact position and type. A triangle that contains none in the original contains none after decompression.",
 ["inputs", "configurations"], "all finite 2D vector fields in general position (cells whose containment test is not numerically degenerate), all shapes and bounds, including bounds far larger than the data where only the critical-point constraint limits the error",
 TESTS + "no test extracts critical points; the guarantee quantifies over every triangle of every field and over the order in which vertices are perturbed.",
 FAM2,
 [("bound derived from the six triangles around a vertex, using already-decompressed neighbours", "src/sz_compress_cp_preserve_2d.cpp"), ("exact storage of vertices of triangles with a critical point", "src/sz_compress_cp_preserve_2d.cpp"), ("verification after quantisation in the relaxed variant", "src/sz_compress_cp_preserve_2d.cpp")],
 ["original field vs decompressed field, triangle by triangle"])

prop("C09", "Relative-bound 2D compression preserves where critical points are and their type",
 "With any relative-error triangular-mesh variant, every triangle contains a critical point after decompression exactly when it did before. The critical point in it keeps its type: saddle, attracting or repelling node, attracting or repelling focus.",
 ["inputs", "configurations"], "all finite 2D vector fields in general position (containment and type tests not numerically degenerate before and after), all shapes, relative bounds in (0,1], float and double",
 "The four relative triangular variants are never executed by the existing tests, and no test extracts or classifies critical points.",
 FAM2,
 [("largest relative perturbation that keeps the signs deciding containment", "src/sz_compress_cp_preserve_2d.cpp"), ("largest perturbation that keeps trace, determinant and discriminant signs", "src/sz_compress_cp_preserve_2d.cpp"), ("conservative quantisation of the per-vertex bound", "include/sz_cp_preserve_utils.hpp")],
 ["original field vs decompressed field, triangle by triangle"])

prop("C10", "Bilinear compression keeps the critical points of each quadrilateral cell",
 "With the bilinear variant, every quadrilateral cell has as many critical points of the bilinearly interpolated field inside it after decompression as before. Their types are the same.",
 ["inputs", "configurations"], "all finite 2D vector fields in general position with magnitudes the logarithmic representation supports, all shapes, relative bounds in (0,1], float and double",
 "The bilinear variant is never executed by the existing tests.",
 ["src/sz_compress_cp_preserve_2d_bilinear.cpp", "src/sz_decompress_cp_preserve_2d.cpp"],
 [("per-cell bound plus verification of root count and type, falling back to exact storage", "src/sz_compress_cp_preserve_2d_bilinear.cpp")],
 ["sz_compress_cp_preserve_2d_bilinear_online_log", "sz_decompress_cp_preserve_2d_online_log"])

FAM3 = ["src/sz_compress_cp_preserve_3d.cpp", "src/sz_decompress_cp_preserve_3d.cpp", "include/sz_cp_preserve_utils.hpp"]
prop("C11", "3D vector-field compression honours the user's error bound",
 "For regular-grid 3D critical-point-preserving compression, every component of every decompressed vector is within the user's bound of the original: absolute for the absolute variant, a fraction of the magnitude (up to rounding of logarithms) for the logarithmic ones. In the logarithmic variants signs never flip and zeros stay zero.",
 ["inputs", "configurations"], "all finite 3D vector fields, all shapes from 1x1x1 upward, absolute bounds of any size or relative bounds in (0,1], float and double",
 "The 3D critical-point compressors are not even compiled by the existing build, so nothing tests them.",
 FAM3,
 [("per-vertex bound capped by the user's bound", "src/sz_compress_cp_preserve_3d.cpp"), ("exact storage when no bound is available", "src/sz_compress_cp_preserve_3d.cpp"), ("mirror-image 3D reconstruction", "src/sz_decompress_cp_preserve_3d.cpp")],
 ["sz_compress_cp_preserve_3d_{offline_log,online_log,online_abs}", "sz_decompress_cp_preserve_3d_{online_log,online_abs}"])

prop("C12", "3D compression preserves which tetrahedra contain critical points",
 "For regular-grid 3D compression with the six-tetrahedra-per-cube mesh, a tetrahedron contains a critical point of the linearly interpolated field after decompression exactly when it did before. One that contains a critical point in its interior keeps the values at its vertices bit for bit, so the point stays exactly where it was.",
 ["inputs", "configurations"], "all finite 3D vector fields in general position, all shapes from 2x2x2 upward, all bounds, float and double",
 "The 3D critical-point compressors are not compiled by the existing build, and no test extracts 3D critical points.",
 FAM3,
 [("bound from the tetrahedra around each vertex keeping the sign of every sub-determinant", "src/sz_compress_cp_preserve_3d.cpp")],
 ["original field vs decompressed field, tetrahedron by tetrahedron"])

prop("C13", "Unstructured-mesh compression bounds error and preserves critical points",
 "For vector data on an arbitrary tetrahedral mesh, every decompressed component is within the user's relative bound of the original (up to rounding of logarithms), with signs and zeros kept. Every tetrahedron of the mesh contains a critical point after decompression exactly when it did before. One with a critical point in its interior keeps the values at its vertices bit for bit.",
 ["inputs", "configurations"], "all tetrahedral meshes (any connectivity, isolated vertices, shared faces, any vertex order) with finite vector data in general position, relative bounds in (0,1], float and double",
 "The unstructured compressor is not compiled by the existing build, so nothing tests it.",
 FAM3,
 [("adjacency built from the element list", "src/sz_compress_cp_preserve_3d.cpp"), ("bound from every adjacent tetrahedron, exact storage otherwise", "src/sz_compress_cp_preserve_3d.cpp"), ("sign bitmap indexed per component", "src/sz_decompress_cp_preserve_3d.cpp")],
 ["sz_compress_cp_preserve_3d_unstructured", "sz_decompress_cp_preserve_3d_unstructured"])

prop("C14", "Entropy coding is lossless for every symbol sequence",
 "Encoding any sequence of symbols below the declared alphabet size and decoding it returns exactly that sequence, whatever the number of distinct symbols, their frequencies and the resulting code lengths. The reader stops exactly where the writer stopped, so anything stored after the coded sequence is still found. The code is a Huffman code: no prefix code would make the coded sequence shorter.",
 ["inputs", "histories"], "all symbol sequences: empty, one distinct symbol, up to and beyond the 256- and 65536-node tree-size classes, uniform, skewed and Fibonacci-like frequencies that give very long codes, and several sequences stored one after another",
 TESTS + "fields from five analytic formulas give a few hundred distinct symbols at most; the larger tree representations and long codes are hardly or never reached.",
 ["src/sz_huffman.cpp", "src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp"],
 [("tree stored with index width by node count", "src/sz_huffman.cpp: convert_HuffTree_to_bytes_anyStates / reconstruct_HuffTree_from_bytes_anyStates"), ("bit-level encoder and decoder", "src/sz_huffman.cpp: encode/decode"), ("tree built from a priority queue of frequencies", "src/sz_huffman.cpp: init, qinsert, qremove"), ("size fields written around tree and codes", "src/sz_compression_utils.cpp: Huffman_encode_tree_and_data")],
 ["Huffman_encode_tree_and_data / Huffman_decode_tree_and_data", "encode_withTree / decode_withTree"])

prop("C15", "The lossless back end returns every byte string unchanged",
 "Any byte string compressed with the lossless back end at any level decompresses to the identical bytes and length. Its output is recognised as losslessly compressed data; the bounded decompressor returns at least the leading bytes of short inputs unchanged.",
 ["inputs", "configurations"], "all byte strings (tiny, incompressible, highly repetitive, megabytes) and compression levels 1-19",
 TESTS + "the back end only ever sees streams of the sizes those fields produce, at one level.",
 ["src/sz_lossless.cpp", "include/sz_lossless.hpp"],
 [("zstd frame with buffer-size estimate", "src/sz_lossless.cpp: sz_lossless_compress"), ("decompression to the caller-supplied size", "src/sz_lossless.cpp: sz_lossless_decompress")],
 ["sz_lossless_compress", "sz_lossless_decompress", "sz_lossless_decompress65536bytes", "is_lossless_compressed_data"])

prop("C16", "Packed side information reads back exactly as written",
 "Flag bitmaps, scalars, arrays and regression coefficients written one after another into a stream read back in the same order with identical content (coefficients: exactly the values the encoder predicted with, each within its precision of the fitted one). Writer and reader advance by the same number of bytes for every length.",
 ["inputs", "histories"], "all sequences of mixed writes with flag arrays of every length modulo 8, arbitrary scalars and arrays, and arbitrary regression coefficient sequences including unpredictable ones",
 TESTS + "all lengths come from six shapes and the bitmaps are mostly constant.",
 ["src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp", "include/sz_compression_utils.hpp", "include/sz_decompression_utils.hpp"],
 [("bitmap packing/unpacking", "convertIntArray2ByteArray_fast_1b_to_result_sz / convertByteArray2IntArray_fast_1b_sz"), ("typed cursor reads and writes", "write_variable_to_dst, read_variable_from_src"), ("coefficient prediction and quantisation", "compress_regression_coefficient_*, decode_regression_coefficients*")],
 ["the functions named above"])

prop("C17", "Quantised error bounds are never larger than the bounds they stand for",
 "Quantising a derived error bound for storage yields a bound that is no larger than the original, and the stored index alone reproduces exactly the bound the encoder used. Bounds below the smallest representable one become zero with index zero, larger bounds lose at most one quantisation step, and larger inputs never get smaller indices.",
 ["inputs", "configurations"], "all non-negative bounds (zero, denormal, powers of the base, neighbours of powers, up to very large), all bases and thresholds used by the compressors",
 TESTS + "the property is about every real bound, especially those next to a power of the base, which sampled fields hit only by luck.",
 ["include/sz_cp_preserve_utils.hpp"],
 [("exponential quantisation by truncating the logarithm", "eb_exponential_quantize"), ("linear quantisation", "eb_linear_quantize")],
 ["eb_exponential_quantize", "eb_linear_quantize"])

prop("C18", "Sign-preserving perturbation bounds are sound and not vacuous",
 "The bound computed for keeping the sign of a difference of two positive quantities of given degree really keeps it: no relative perturbation of the factors strictly below the bound can flip the sign, while the bound is attained at the worst case. The fast square and cube roots it can use stay within their documented relative error.",
 ["inputs"], "all non-negative pairs of any magnitude and degrees 1 to 3; all positive floats for the roots",
 "It is an inequality over all reals with equality at the boundary; no existing test calls it.",
 ["include/sz_cp_preserve_utils.hpp"],
 [("closed-form worst-case bound", "max_eb_to_keep_sign"), ("Newton-refined bit-trick roots", "asqrt1, acbrt1")],
 ["max_eb_to_keep_sign", "max_eb_to_keep_sign_2d_offline", "max_eb_to_keep_sign_3d_offline", "asqrt1", "acbrt1"])

prop("C19", "The variable-bound quantiser reproduces what it recorded",
 "Values quantised with a prediction and a per-value bound are overwritten with a value within the bound, and recovering from the recorded indices, predictions, bounds and saved unpredictable values yields exactly the overwritten values in order. A zero bound or a value out of range is kept exactly; saving and loading the quantiser consumes exactly the bytes written and restores its range. The interpolation predictors reproduce polynomials of their degree exactly.",
 ["inputs", "histories"], "all sequences of (value, prediction, bound) triples with save/load/clear in between, every quantiser radius, float and double",
 TESTS + "one interpolation program drives it with one radius and few unpredictable values.",
 ["include/sz3_utils.hpp"],
 [("quantise, check, overwrite or record unpredictable", "VariableEBLinearQuantizer::quantize_and_overwrite"), ("recover in the same order", "VariableEBLinearQuantizer::recover"), ("save/load", "VariableEBLinearQuantizer::save/load")],
 ["VariableEBLinearQuantizer", "interp_*"])

ALL = ["src/sz_compress_3d.cpp", "src/sz_decompress_3d.cpp", "src/sz_compress_pwr.cpp", "src/sz_decompress_pwr.cpp", "src/sz_compress_cp_preserve_2d.cpp", "src/sz_compress_cp_preserve_2d_bilinear.cpp", "src/sz_decompress_cp_preserve_2d.cpp", "src/sz_compress_cp_preserve_3d.cpp", "src/sz_decompress_cp_preserve_3d.cpp", "src/sz_huffman.cpp", "src/sz_compression_utils.cpp", "src/sz_decompression_utils.cpp", "src/sz_lossless.cpp"]
prop("C20", "No compressor or decompressor touches memory outside its buffers",
 "For every valid input, each compressor and decompressor runs to completion without reading or writing outside the arrays it was given or allocated. The stream is self-contained: a copy holding exactly the reported number of bytes decompresses to the same result as the original buffer.",
 ["inputs", "configurations"], "all entry points x all valid inputs: 1-element and thin shapes, incompressible noise, bounds so tight that every value is stored verbatim, constant data, many distinct symbols, all-zero fields",
 TESTS + "36 of the original runs crash because noisy fields overflow undersized buffers; memory errors that happen not to crash are invisible to the tests.",
 ALL,
 [("buffer sizing before writing", "each compressor's allocation of its output and side arrays"), ("mirrored cursor arithmetic", "each decompressor")],
 ["all public compress/decompress functions under AddressSanitizer"])

prop("C21", "Compression is a pure function of its inputs",
 "No compressor or decompressor modifies the arrays or streams it is given, and its result depends only on its arguments: not on earlier calls, on leftover memory contents, or on how often it is repeated. Decompressing twice, into fresh or reused output pointers and in any order among other calls, gives identical arrays; compressing the same input again decompresses identically.",
 ["inputs", "histories"], "all sequences of mixed compress/decompress calls over all entry points, with outputs reused or fresh and memory pre-filled with different patterns",
 "Each existing test process makes one compress and one decompress call.",
 ALL,
 [("working copies of the inputs", "each compressor"), ("no global mutable state", "src/sz_huffman.cpp and all sources"), ("freeing and reallocating caller pointers", "src/sz_decompress_cp_preserve_*.cpp")],
 ["all public compress/decompress functions"])

prop("C22", "Concurrent calls do not disturb each other",
 "Compressing and decompressing different fields at the same time in several threads gives each thread exactly the results it would get alone.",
 ["schedules", "inputs"], "all interleavings of compress/decompress calls of all entry points on separate data in up to 8 threads",
 "No existing test uses more than one thread.",
 ALL,
 [("all state lives in call-local or heap objects", "src/sz_huffman.cpp: HuffmanTree, all sources")],
 ["all public compress/decompress functions called from several threads"])

prop("C23", "Compression pays off on easy data and never expands data much",
 "Constant and smooth fields shrink to a small fraction of their size at loose bounds, through every compressor, and on them a looser bound never costs substantially more space. On any data the output stays within the input size plus a bounded overhead for side information.",
 ["inputs", "configurations"], "all smooth/constant families and bounds for the reduction side; all valid inputs for the expansion side",
 TESTS + "no test looks at the size of the output.",
 ALL,
 [("prediction close to the data gives few distinct symbols", "all compressors"), ("exact storage bounded by the input size", "all compressors")],
 ["reported compressed size, and size after the lossless back end"])

prop("C24", "Quality report and file I/O tell the truth",
 "The quality report printed for an original/decompressed pair states the true minimum, maximum, range, maximum absolute error, the same relative to the range and pointwise-relative error (over values larger than one in magnitude), PSNR, normalised RMSE and correlation of the two arrays. Arrays written to a file and read back are bit-identical with the right element count.",
 ["inputs"], "all pairs of finite arrays of equal length (maximum at any position, negative data, single large error anywhere) and all array lengths and element types for I/O",
 "The existing tests print the report without comparing it with anything.",
 ["include/utils.hpp"],
 [("single-pass statistics", "verify"), ("binary stream I/O", "readfile, writefile, readfile_to_buffer")],
 ["standard output of verify", "files written and read"])

prop("C25", "The command-line tools deliver bounded decompressed files end to end",
 "Running a command-line compression program (2D, 3D and unstructured vector fields, per-point bounds, pointwise-relative) on any valid input files ends normally, and the output files it writes have the right size and hold values within the requested bound of the input (for 2D vector fields, critical points are kept too). What the program reports about errors and sizes agrees with the files, and the input files are left untouched.",
 ["inputs", "configurations"], "all input fields, shapes and bounds accepted on the command line of the five programs that can run without FTK",
 TESTS + "only those fixed inputs are run, and their output values are not checked against the bound.",
 ["test/sz_compress_test.cpp", "test/sz_compress_2d_with_eb.cpp", "test/sz_compress_cp_preserve_2d_test.cpp", "test/sz_compress_cp_preserve_3d_test.cpp", "test/sz_compress_cp_preserve_3d_unstructured_test.cpp", "src/sz_lossless.cpp", "include/utils.hpp"],
 [("compress, lossless stage, write, read back, decompress, write", "test/*.cpp")],
 ["*.out files written by the programs"])

prop("C26", "Streams stay readable: compressed data decodes to the same values for ever",
 "A compressed stream written earlier by this version of the library still decodes to the values its decoder returned then (up to floating-point rounding), for every kind of stream. In particular, streams of three-dimensional data with per-point bounds decode within those bounds with an independent reader of the stream layout.",
 ["inputs", "histories"], "all streams produced by every compressor of the pinned version; archived streams decoded by the current code, and current streams decoded by an independent reference reader",
 "Each existing test writes and reads a stream with the same build, so a matching change to writer and reader that orphans archived data passes.",
 ALL,
 [("fixed field order and widths of each stream", "write_variable_to_dst / read_variable_from_src sequences"), ("tree serialisation", "src/sz_huffman.cpp")],
 ["decompress functions fed with archived streams"])

prop("C27", "Repeated calls do not pile up memory",
 "A compressor leaves nothing allocated besides the stream (and side arrays) it returns, a decompressor nothing besides its output arrays, and output arrays passed in non-NULL are released and replaced. So a program that compresses and decompresses over and over, whatever the data, keeps a constant footprint.",
 ["inputs", "histories"], "all compressors, decompressors, coders, the quantiser and the file functions on all valid inputs, repeated any number of times, with fresh, reused or partly reused output arrays",
 "The existing tests call each function a few times and never look at the heap.",
 ALL,
 [("every temporary is released on every path", "compressors and decompressors"), ("replaced outputs", "if(U) free(U)"), ("tree buffers for each node width", "src/sz_huffman.cpp")],
 ["live heap blocks before and after a call"])

prop("C28", "Work and memory grow in proportion to the data",
 "Every compression and decompression ends, and the steps it takes and the memory it asks for are bounded by a fixed start-up cost plus an amount proportional to the number of values (of points and cells for a mesh). This holds whatever the data, bound and shape: also when nothing is predictable, when every cell holds a critical point, and for long thin arrays.",
 ["inputs", "configurations"], "all codecs except the lossless back end, all valid inputs, bounds and shapes from 4 values up",
 "The existing tests run a few small smooth fields and would not notice a quadratic cost.",
 ALL,
 [("one pass over the data per stage", "compressors and decompressors"), ("priority queue of the code tree", "src/sz_huffman.cpp: qinsert, qremove"), ("constant-time lookup of exactly stored points", "unpred_data_indices"), ("amortised growth of the list of exact values", "unpred_vec")],
 ["basic blocks executed and bytes requested during a call"])

prop("C29", "A call needs only a small stack, however large the data",
 "No compression or decompression uses more than 128 KB of stack, whatever the data, bound and shape: working storage that depends on the input lives on the heap, and nothing recurses per value, row, point or cell. So calls are safe in worker threads with small stacks and on very large or very long arrays.",
 ["inputs", "configurations"], "all codecs, all valid inputs, bounds and shapes",
 "The existing tests run small arrays on the 8 MB stack of the main thread, where a row or a whole array on the stack goes unnoticed.",
 ALL,
 [("row buffers and index arrays from malloc", "compressors and decompressors"), ("recursion only over the code tree", "src/sz_huffman.cpp: build_code, pad_tree_uchar, unpad_tree_uchar"), ("point loops of the mesh codec", "src/sz_compress_cp_preserve_3d.cpp: sz_compress_cp_preserve_3d_unstructured")],
 ["depth of the stack during a call"])

prop("C30", "A call leaves the process as it found it",
 "Library calls change nothing of the calling process but their results: not the rounding mode or other floating-point controls, the locale, the format of the standard streams, the sequence of rand() and its relatives, open files, the working directory or the files in it, signal handling, timers, limits, environment, threads or child processes. Nor does that state change what a call returns.",
 ["inputs", "configurations", "histories"], "all codecs, coders, file helpers and the quality report, all valid inputs; text on standard output, errno and sticky exception flags excepted",
 "The existing tests run each program on its own and look only at its output.",
 ALL + ["include/utils.hpp"],
 [("diagnostics through std::cout and printf", "src/sz_compress_cp_preserve_3d.cpp, src/sz_compress_cp_preserve_2d.cpp"), ("streams closed after use", "include/utils.hpp: readfile, writefile"), ("sampling without random numbers", "include/sz_optimize_quant_intervals.hpp")],
 ["state of the process before and after a call", "results under different states"])

with open(OUT, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
