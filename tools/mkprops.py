#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
S = "crates/minikalman/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f if not f.startswith("/") else f[1:] for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

FST = [("x", "state estimate", S + "kalman/regular.rs"), ("P", "estimate covariance", S + "kalman/regular.rs"),
       ("A", "state transition (or its Jacobian)", S + "kalman/regular.rs"), ("Q", "direct process noise", S + "kalman/regular.rs")]

p("C01", "Linear prediction computes x := A x and P := A P A^T + Q",
  "After a prediction step of a linear filter the state vector equals A x and the estimate covariance equals A P A^T + Q, where x, P, A, Q are the values the filter held before the call. This holds for every number of states, every matrix contents, every scalar type (exactly in exact arithmetic, within the type's rounding otherwise).",
  ["inputs", "histories"], "every dimension, every A, Q, x and symmetric P, every scalar type, at every point of a filter's life",
  "Tests use one or two fixed filters (gravity, 3 states) from one starting point and compare a few printed values; a formula error that cancels for A close to the identity, Q = 0 or small dimensions is not seen.",
  ["kalman/regular.rs", "matrix/traits.rs"],
  [("predict / predict_x / predict_P", S + "kalman/regular.rs"), ("mult, mult_transb, mult_rowvector, add_inplace_b", S + "matrix/traits.rs")],
  FST, ["state_vector()", "estimate_covariance() after predict()"])

p("C02", "Tuned prediction scales the propagated covariance by 1/lambda^2",
  "A tuned prediction with factor lambda yields the same state as the untuned one and the covariance A P A^T / lambda^2 + Q: only the propagated covariance is scaled, the process noise is not. It holds for the linear and the extended filter alike, and lambda = 1 gives exactly the untuned prediction.",
  ["inputs", "histories"], "every lambda other than zero, every dimension and model, both filter kinds",
  "Existing tests call the tuned prediction with one lambda on one model; confusing lambda with lambda^2, or scaling Q too, is invisible at lambda = 1 or Q = 0.",
  ["kalman/regular.rs", "kalman/extended.rs", "matrix/traits.rs"],
  [("predict_tuned / predict_P_tuned", S + "kalman/regular.rs"), ("predict_tuned_nonlinear", S + "kalman/extended.rs"), ("multscale_transb", S + "matrix/traits.rs")],
  FST, ["state_vector(), estimate_covariance() after a tuned prediction"])

p("C03", "Applying a control adds B u to the state and B Qu B^T to the covariance",
  "Applying a control input to a filter changes its state to x + B u and its covariance to P + B Qu B^T, for every number of states and control inputs. A control with no inputs changes nothing, and the control can be applied repeatedly with the effect accumulating each time.",
  ["inputs", "histories"], "every dimension pair, every B, u, Qu, including zero control inputs, any number of applications",
  "Tests apply single-input controls to one filter; non-square B, several inputs, correlated control noise and repeated application are not settled.",
  ["controls.rs", "kalman/regular.rs", "matrix/traits.rs"],
  [("apply_control", S + "controls.rs"), ("multadd_rowvector, multadd_transb", S + "matrix/traits.rs")],
  [("u", "control vector", S + "controls.rs"), ("B", "control matrix", S + "controls.rs"), ("Q", "control process noise", S + "controls.rs")],
  ["state_vector(), estimate_covariance() after control()"])

p("C04", "Linear correction is the Kalman measurement update",
  "For an observation with positive definite innovation covariance S = H P H^T + R, a correction changes the state to x + K (z - H x) and the covariance to P - K H P with K = P H^T S^-1, all evaluated at the values before the call. This holds for every number of states and measurements, including more measurements than states.",
  ["inputs", "histories"], "every dimension pair, every H, z, R and symmetric P with positive definite S, every scalar type, any history",
  "Tests correct with one or two scalar or 1-3 dimensional observations at fixed values and loose thresholds; correlated noise, non-square H, more observations than states and wrong ordering of the two updates are not settled.",
  ["observations/regular.rs", "kalman/regular.rs", "matrix/traits.rs"],
  [("correct", S + "observations/regular.rs"), ("cholesky_decompose_lower, invert_l_cholesky, mult_transb", S + "matrix/traits.rs")],
  [("H", "observation matrix", S + "observations/regular.rs"), ("z", "measurement", S + "observations/regular.rs"), ("R", "measurement noise", S + "observations/regular.rs")],
  ["state_vector(), estimate_covariance() after correct()"])

p("C05", "Nonlinear prediction uses the user's transition once, at the prior state",
  "A nonlinear prediction calls the user's transition function exactly once, shows it the state held before the call, and the state afterwards is exactly what the function produced; the covariance becomes J P J^T + Q with the configured Jacobian J. When the function is x -> A x and J = A, the result equals the linear filter's prediction.",
  ["inputs", "histories"], "every transition function, Jacobian, dimension and history (including functions that write only after reading, and stale prediction buffers)",
  "Tests use one transition function and check a couple of entries of the state; call count, the state shown to the function and the covariance path for other models are not settled.",
  ["kalman/extended.rs", "matrix/traits.rs"],
  [("predict_nonlinear / predict_x_nonlinear / predict_P", S + "kalman/extended.rs")], FST,
  ["arguments seen by the closure", "state_vector(), estimate_covariance()"])

p("C06", "Nonlinear correction uses h(x) once, at the prior state",
  "A nonlinear correction calls the user's measurement function exactly once, at the state held before the call, forms the innovation z - h(x), and then applies the Kalman update with the configured measurement Jacobian. When h(x) = H x and the Jacobian is H, the result equals the linear correction.",
  ["inputs", "histories"], "every measurement function, Jacobian, dimension pair and history with positive definite S",
  "Tests use one bearing/position model at a few points; sign or order errors in the innovation, or a second evaluation after the state changed, can cancel there.",
  ["observations/extended.rs", "kalman/extended.rs", "matrix/traits.rs"],
  [("correct_nonlinear / update_with_innovation", S + "observations/extended.rs")],
  [("H", "measurement Jacobian", S + "observations/extended.rs"), ("z", "measurement", S + "observations/extended.rs"), ("R", "measurement noise", S + "observations/extended.rs")],
  ["arguments seen by the closure", "state_vector(), estimate_covariance()"])

p("C07", "Results depend only on model and estimate; model inputs are never changed",
  "No prediction, control application or correction modifies the transition, process noise, control, observation, measurement or noise data it works with; only the estimate (x, P) of the filter it is applied to changes. The new estimate is a function of those inputs and the old estimate alone: whatever the working buffers contained at construction, or were left with by earlier calls (even failed or unrelated ones), has no influence.",
  ["inputs", "histories"], "every operation, every prior content of every working buffer, every order of earlier calls",
  "Tests start from zeroed working buffers and rarely call an operation twice with changed inputs, so reading a stale working buffer or writing into an input is not seen.",
  ["kalman/regular.rs", "kalman/extended.rs", "controls.rs", "observations/regular.rs", "observations/extended.rs", "matrix/traits.rs"],
  [("every working buffer is overwritten before it is read", S + "observations/regular.rs"), ("predicted_x, temp_P", S + "kalman/regular.rs"), ("temp_BQ", S + "controls.rs")],
  FST, ["every public buffer of every object, before and after each call"])

p("C08", "Any history over shared filters, controls and observations composes step by step",
  "For any sequence of predictions, controls, corrections and user writes over several filters that share control and observation objects of different sizes, each call transforms exactly the filter it is applied to as its own definition says, and no filter, control or observation is affected by calls on others. A history therefore always ends in the state obtained by composing the individual step definitions.",
  ["histories"], "every finite interleaving of operations and user writes over several filters and shared objects",
  "Tests run one filter with one observation in one fixed order.",
  ["kalman/regular.rs", "kalman/extended.rs", "controls.rs", "observations/regular.rs", "observations/extended.rs", "kalman/filter_trait.rs"],
  [("control(&mut control) / correct(&mut measurement) delegate to the shared object", S + "kalman/regular.rs")], FST,
  ["every public buffer of every object after each call"])

p("C09", "The covariance stays symmetric and PSD; corrections never increase it",
  "Starting from a symmetric positive semidefinite covariance with such noise matrices, the estimate covariance stays symmetric and positive semidefinite (up to rounding) through every history of predictions, controls and corrections. A correction never increases any state's variance, nor the covariance in the matrix order, and a control or an untuned prediction with A = I never decreases it.",
  ["histories", "inputs"], "every history of operations with valid noise models, every dimension",
  "Tests look at single entries of P after a fixed short run.",
  ["kalman/regular.rs", "kalman/extended.rs", "controls.rs", "observations/regular.rs", "observations/extended.rs", "matrix/traits.rs"],
  [("P := A P A^T + Q", S + "kalman/regular.rs"), ("P := P - K H P", S + "observations/regular.rs")], FST,
  ["estimate_covariance() along histories"])

p("C10", "Independent measurements give the same estimate in any order and when stacked",
  "Correcting with several observations whose noises are mutually independent gives the same estimate whichever order they are applied in, and the same as one correction with the stacked observation with block-diagonal noise. It holds for linear observations of any sizes and, likewise, controls applied together or one after the other have the same effect as one stacked control.",
  ["histories", "inputs"], "every set of independent observations (or controls), every order, every dimension, symmetric P",
  "No test applies two observations in two orders or compares with a stacked one.",
  ["observations/regular.rs", "controls.rs", "matrix/traits.rs"],
  [("correct", S + "observations/regular.rs"), ("apply_control", S + "controls.rs")], FST,
  ["estimates of filters taken through the different orders"])

p("C11", "Matrix arithmetic is correct for every shape and leaves its operands alone",
  "Every matrix product (plain, buffered, accumulating, scaled, by a transposed factor, by a vector), difference, in-place sum or difference and copy yields the mathematical result for every shape and contents, whatever the destination held before (except where accumulation is the purpose). Operands other than the destination keep their value.",
  ["inputs"], "every shape (non-square included) and contents, every previous destination contents",
  "Tests use one or two small, mostly square or hand-picked matrices per operation.",
  ["matrix/traits.rs"],
  [("mult, mult_buffered, mult_rowvector, multadd_rowvector, mult_transb, multadd_transb, multscale_transb, sub, add_inplace_a/b, sub_inplace_a/b, copy_to, copy_from", S + "matrix/traits.rs")],
  [], ["all operands and the destination after each call"])

p("C12", "Element, row and column access agree on one row-major layout",
  "For every shape, element (r, c) read or written through any accessor (get, get_at, set, set_at, indexing, slices, row or column copies, vector and scalar accessors, symmetric set) is the same element, stored at position r*cols + c, and writing one element changes no other. Bulk setters (fill, clear, identity, scalar, diagonal) produce exactly the named matrix.",
  ["inputs", "histories"], "every shape, every index, every sequence of reads and writes, every storage type",
  "Tests read row 0 or square matrices; non-square shapes and rows other than the first are not exercised for all accessors.",
  ["matrix/traits.rs", "matrix/row_major.rs", "matrix/data.rs"],
  [("get_row_copy, get_column_copy, get/set, set_symmetric, make_*", S + "matrix/traits.rs"), ("get_at/set_at", S + "matrix/row_major.rs")],
  [], ["every accessor after each write"])

p("C13", "Cholesky succeeds exactly on positive definite matrices; the inverse is right",
  "The lower Cholesky decomposition of a symmetric matrix reports success exactly when the matrix is positive definite (a zero or negative pivot is refused), and on success leaves a lower triangular L with positive diagonal, zero above it, and L L^T equal to the original. Inverting from that factor gives a symmetric matrix which multiplied with the original is the identity, whatever the destination held.",
  ["inputs"], "every size and every symmetric matrix, including indefinite, singular and scaled ones, every scalar type",
  "Tests decompose one 3x3 matrix and one failing case.",
  ["matrix/traits.rs"],
  [("cholesky_decompose_lower", S + "matrix/traits.rs"), ("invert_l_cholesky", S + "matrix/traits.rs")],
  [], ["returned flag, decomposed matrix, inverse"])

p("C14", "Storage kind does not matter; nothing beyond a matrix's extent is touched",
  "A filter, control or observation built on boxed, array, borrowed-slice, larger-than-needed or user-provided storage, or on read-only data where the model is constant, produces the same results. When the storage is larger than the matrix, no operation ever changes the elements beyond rows*cols, and their contents never influence a result.",
  ["inputs", "configurations", "histories"], "every storage kind for every buffer, every surplus length and content, every operation",
  "Tests instantiate each storage kind alone and do not run the filter on oversized buffers or look at the surplus.",
  ["matrix/data.rs", "matrix/data/matrix_data_array.rs", "matrix/data/matrix_data_boxed.rs", "matrix/data/matrix_data_mut.rs", "matrix/data/matrix_data_ref.rs", "matrix/data/matrix_data_row_major.rs", "matrix/data/matrix_data_row_major_mut.rs", "matrix/traits.rs", "buffers/types.rs", "buffers/macros.rs"],
  [("as_slice/as_mut_slice with ROWS*COLS extents", S + "matrix/row_major.rs"), ("buffer wrappers", S + "buffers/macros.rs")],
  [], ["whole backing storage after each call"])

p("C15", "f32, f64 and fixed-point filters approximate the exact update on every backend",
  "For well-conditioned models whose values fit the type, every filter step in f32, f64, I16F16 and I32F32, on the standard-library, libm and micromath back-ends, stays within the rounding (for micromath: approximation) error of that type of the exact result, at every magnitude of the problem. The scalar reciprocal and square root used are within that accuracy for every positive input whose result the type can represent (micromath: in the normal f32 range).",
  ["inputs", "configurations"], "every scalar type, back-end and in-range well-conditioned input, from tiny to large magnitudes",
  "Tests compare a handful of values per type and only with the back-end of one build.",
  ["matrix/data_type.rs", "matrix/traits.rs", "kalman/regular.rs", "observations/regular.rs"],
  [("MatrixDataType::recip / square_root", S + "matrix/data_type.rs")],
  [], ["recip(), square_root(), filter state after each step"])

p("C16", "The generic trait interface behaves exactly like the concrete types",
  "Using a filter, control or observation through the library's generic traits (including the umbrella traits for filters, controls and observations) reads and changes the same data and performs the same operation as the inherent methods of the concrete types. Reported dimensions (states, controls, observations) are those the object was built with.",
  ["programs", "histories"], "every trait method, every dimension, every history, both filter kinds",
  "Tests check that the traits compile and call a few methods without comparing the outcome.",
  ["kalman/filter_trait.rs", "kalman/regular.rs", "kalman/extended.rs", "controls.rs", "observations/regular.rs", "observations/extended.rs"],
  [("trait impls forwarding to inherent methods", S + "kalman/regular.rs")], FST,
  ["same program run through both interfaces"])

p("C17", "Builders and buffer factories produce fresh, zeroed, right-sized objects",
  "The high-level builders produce filters, controls and observations of exactly the requested dimensions with every vector and matrix zero, owning all of their storage, so objects from one builder are independent. Every buffer factory yields a buffer of the shape its role needs for every dimension combination, filled with zero or with the requested initial value, and in-range accesses of all its elements work.",
  ["inputs", "programs"], "every builder and factory, every dimension combination (states, controls, observations all different), every initial value",
  "Tests build with one dimension combination, often with equal dimensions, where swapped dimensions cannot be seen.",
  ["kalman_builder/regular.rs", "kalman_builder/extended.rs", "buffers/builder.rs", "buffers/types.rs", "buffers/macros.rs"],
  [("BufferBuilder factories", S + "buffers/builder.rs"), ("build()", S + "kalman_builder/regular.rs")],
  [], ["length, contents and element access of every buffer"])

p("C18", "Static buffer macros declare storage of exactly the role's size and role",
  "Every size macro evaluates to the number of elements its buffer needs, and every declaration macro declares a static array of exactly that many elements with the given initial value and element type, for every combination of dimensions. A filter, control and observation built on macro-declared storage behaves like one built by the builders.",
  ["inputs", "configurations"], "every macro, every dimension combination, element type and initial value",
  "Tests expand the macros with one set of dimensions and mostly check they compile.",
  ["static_macros.rs"],
  [("size_buffer_* and impl_buffer_* macros", S + "static_macros.rs")],
  [], ["sizes, contents and use of declared statics"])

p("C19", "Wrongly sized storage is reported, never silently accepted",
  "Constructing a matrix or a role buffer over storage too small for its shape is refused where the constructor checks sizes (with assertions enabled), exactly sized storage is always accepted, larger borrowed or array storage is accepted by role buffers, and the validity, length and emptiness queries always tell the truth. With assertions disabled construction never fails, and an access beyond the storage still stops instead of touching other memory.",
  ["inputs", "configurations"], "every constructor, shape and storage length (smaller, exact, larger), with assertions on and off",
  "Tests check one too-small length for some of the types.",
  ["matrix/data/matrix_data_array.rs", "matrix/data/matrix_data_boxed.rs", "matrix/data/matrix_data_mut.rs", "matrix/row_major.rs", "buffers/macros.rs", "buffers/types.rs"],
  [("assert/debug_assert in From impls and constructors", S + "buffers/macros.rs"), ("is_valid, len, buffer_len, is_empty", S + "matrix/row_major.rs")],
  [], ["outcome of construction, is_valid(), len(), buffer_len(), is_empty()"])

p("C20", "Every feature combination builds and they all compute the same filter",
  "The crate compiles with every subset of its features, and in every subset that provides a floating-point back-end exactly one implementation of each scalar operation is selected. The results of a filter do not depend on the allocation, unsafe, interoperability or assertion features, and change between numeric back-ends only by their rounding.",
  ["configurations"], "every subset of the crate's features, the same histories run under each",
  "The test suite runs six fixed feature sets out of 256, each against its own expectations.",
  ["lib.rs", "matrix/data_type.rs", "matrix/nalgebra_support.rs", "kalman.rs", "/crates/minikalman/Cargo.toml"],
  [("cfg-selected back-ends", S + "matrix/data_type.rs"), ("feature gates", S + "lib.rs")],
  [], ["compiler result per subset", "recorded histories per subset"])

p("C21", "Viewing a matrix through nalgebra shows the same elements",
  "A matrix used as nalgebra storage shows, at row r and column c, exactly the element at row r and column c of the matrix, with the same number of rows and columns, for every shape. Element access, row and column views, iteration, transposition and element-wise combination with ordinary nalgebra matrices all agree with it. Storage that is too short for the shape is never read beyond its end.",
  ["inputs", "configurations"], "every shape and contents, larger-than-needed arrays included",
  "The only test checks the number of rows and columns of one matrix.",
  ["matrix/nalgebra_support.rs", "matrix/data/matrix_data_array.rs"],
  [("RawStorage impl: strides, shape, pointer", S + "matrix/nalgebra_support.rs")],
  [], ["nalgebra element access, views and iterators"])

p("C22", "A measurement with unusable innovation covariance leaves the estimate alone",
  "When the innovation covariance H P H^T + R of a correction is not positive definite (singular or indefinite), the linear and the nonlinear correction leave state and covariance exactly as they were instead of poisoning them with undefined values or stopping the program. A later correction with a usable covariance works as if the failed one had not been attempted.",
  ["inputs", "histories", "fault_sequences"], "every dimension and every non-positive-definite innovation covariance, at every point of a history, every scalar type",
  "No test corrects with a singular innovation covariance; the failure flag of the decomposition is only tested in isolation.",
  ["observations/regular.rs", "observations/extended.rs", "matrix/traits.rs"],
  [("success flag of cholesky_decompose_lower", S + "matrix/traits.rs"), ("correct / update_with_innovation", S + "observations/regular.rs")],
  FST, ["state_vector(), estimate_covariance() after correct()/correct_nonlinear()"])

p("C23", "Filter steps and matrix operations never use the heap",
  "No prediction, control application or correction, and no matrix operation on existing matrices, allocates or frees heap memory: they work in the memory the objects were built with. This holds for every shape, kind of storage and feature set, through inherent methods and traits, for steps which are carried out and for measurements which are refused; only builders, factories and owning constructors allocate.",
  ["inputs", "histories", "configurations"], "every operation, shape, storage kind and history, with an allocator available (features alloc or std)",
  "Tests run with an allocator available and look at results only; an allocation on a rare path is invisible to them.",
  ["kalman/regular.rs", "kalman/extended.rs", "controls.rs", "observations/regular.rs", "observations/extended.rs", "matrix/traits.rs", "matrix/row_major.rs", "buffers/types.rs"],
  [("working buffers passed to every operation", S + "matrix/traits.rs"), ("temp_P, predicted_x", S + "kalman/regular.rs")],
  FST, ["calls of the global allocator during each operation"])

p("C24", "The compiler keeps roles, sizes, scalars and constant models apart",
  "A program that joins what does not belong together does not compile: a buffer in the place of another role's (even of the same shape), storage or operands of another shape, another scalar type, a filter with a control or observation for another number of states, writing through constant models or shared slices, a slice that is lent to a buffer and used or dropped meanwhile. A program in which roles, sizes, scalars and mutability agree does compile, through inherent methods and through the traits, and a buffer can be shared between threads exactly when its storage can.",
  ["inputs", "configurations"], "every combination of role, shape (small sizes), scalar, storage and mutability that a program of one construction, call or operation can have",
  "Tests are programs that compile; that a wrong program does not is never tested, and of the valid combinations only a few are written down.",
  ["kalman/matrix_types.rs", "kalman/filter_trait.rs", "kalman/regular.rs", "kalman/extended.rs", "controls.rs", "observations/regular.rs", "observations/extended.rs", "matrix/traits.rs", "matrix/data.rs", "buffers/types.rs"],
  [("role traits and their bounds", S + "kalman/matrix_types.rs"), ("bounds of the operations", S + "matrix/traits.rs"), ("bounds of the constructors", S + "kalman/regular.rs"), ("implementations of the role traits", S + "buffers/types.rs")],
  [], ["the compiler's verdict"])

p("C25", "A configuration needs only what it asks for",
  "Without the feature std the library does not need the standard library, without std and alloc it needs no memory allocator, and without the feature unsafe it contains no unsafe code, whatever the other features are. The filters, controls, observations, their buffers and the size and declaration macros are available in all of these configurations; only builders and owning constructors ask for alloc.",
  ["configurations"], "every subset of the crate's features",
  "Tests run on a host that has the standard library and an allocator, so a new dependency on either goes unnoticed until somebody links firmware.",
  ["lib.rs", "kalman.rs", "buffers.rs", "matrix/data.rs", "/crates/minikalman/Cargo.toml"],
  [("crate attributes no_std and forbid(unsafe_code), extern crate alloc", S + "lib.rs"), ("feature gates of builders and boxed data", S + "kalman.rs")],
  [], ["what the compiler says the crate needs, for every feature set"])

p("C26", "Temporary memory may be shared where the documentation allows it",
  "Temporaries are used within a call only, so they may share their memory, and every result stays the same as with separate memory: temporaries of different filters, controls and observations with one another, the temporary P of a filter with the temporary BQ of a control, and within one observation temp_S_inv with temp_KHP or temp_HP, and temp_PHt with temp_HP or temp_KHP (also two such pairs at once). Each of these pairs may be user-provided storage that refers to the same memory.",
  ["inputs", "histories"], "every allowed sharing, every dimension pair, every content left behind, at every point of a history",
  "Every test uses separate buffers, so an operation that relies on a temporary keeping its content while another one is written looks right.",
  ["observations/regular.rs", "observations/extended.rs", "kalman/regular.rs", "kalman/extended.rs", "controls.rs"],
  [("MAY / MUST NOT be aliased, temp_HP calculated a second time", S + "observations/regular.rs"), ("the same for nonlinear observations", S + "observations/extended.rs"),
   ("temp_P", S + "kalman/regular.rs"), ("temp_BQ", S + "controls.rs")],
  FST + [("temp_S_inv, temp_HP, temp_PHt, temp_KHP, temp_BQ, temp_P", "temporaries", S + "observations/regular.rs")], ["state_vector(), estimate_covariance() after every call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
