LR = ["lr/lr.go", "lr/lr_toy.go", "lr/lr_minibatch.go", "lr/lr_minibatch_toy.go"]
LRNOTE = " The programs' sources are compiled against a cleartext stand-in of the library; the stand-in is bound to the library by replaying every operation sequence of depth 3 on both (part of C16)."

prop("C15", "The programs' sums over rows and columns and their key set-up are right",
 "In each training program, the row sum of a packed matrix gives every slot the sum of its column over the rows, the column sum gives every slot of a row the sum of that row, for every power-of-two shape that fits the slots, every level and owner set, without changing the input. The program's key set-up gives every company keys of its own and all the keys its products, rotations and sums need, for any number of companies.",
 ["inputs", "configurations"], "every matrix shape, basis vector, owner set and two levels on small rings; the key set-up at the production ring degree for one to four companies",
 "the programs have no tests at all.",
 LR, [("SumRowVec / SumColVec", "lr/*.go"), ("genTestParams", "lr/*.go")],
 "exhaustive enumeration of matrix shapes and basis vectors on the real program functions and library",
 "The programs' own functions on the real library; a function that no longer exists under its name and signature is skipped with a note (its effect is still decided by C16)." + TRUST)

prop("C16", "Encrypted training computes plaintext Nesterov gradient descent",
 "On every data set within range, and for any learning rate, momentum sequence, sigmoid coefficients, number of iterations, number of companies and batch size the programs can hold, the weights and momentum each training program obtains after every iteration equal those of plaintext Nesterov accelerated gradient descent with the cubic sigmoid approximation (c3 x^3 + c1 x + c0) on the same rows, averaged over the batch, with mini-batches taken in order and cyclically. Every result of training is jointly owned by all companies.",
 ["inputs", "configurations", "histories"], "every program, hyper-parameter variant and data set of the enumerated lists; every library operation sequence of depth 3 for the stand-in",
 "the programs have no tests at all, and one run of one program on the real library takes minutes.",
 LR, [("training loop", "lr/*.go main"), ("constants folded into plaintexts", "lr/*.go main")],
 "explicit enumeration of programs, hyper-parameters and data sets on the programs' own code over a cleartext model of the library, with exhaustive depth-3 conformance replay of the model against the real library",
 "Every slot logged (first and last 64) of every decrypted iteration result compared." + LRNOTE + TRUST)

prop("C17", "Training data are read, labelled, normalised and batched as documented",
 "Each program uses exactly the training rows, all features and the class-0-versus-rest label of the CSV file (header skipped, last column the integer class label), whatever number syntax or line ending the file has. The toy programs standardise the documented columns with mean and deviation of the training rows only and leave the binary columns alone, rows outside the training range influence nothing but their own inference, and files with unreadable numbers, ragged rows or no file at all are refused before training.",
 ["inputs"], "every CSV rendering, integer label pattern, column perturbation, boundary row (thorough: every row) and malformation of the enumerated lists",
 "the programs have no tests at all.",
 LR, [("readData", "lr/*.go"), ("label binarisation and normalisation", "lr/*.go main"), ("batch packing", "lr/lr_minibatch*.go main")],
 "exhaustive enumeration of single-row, single-column, label and format perturbations on the programs' own code over the conformance-checked cleartext model",
 "End-to-end: training results compared with the reference on the perturbed file." + LRNOTE + TRUST)

prop("C18", "Encrypted inference scores and judges the test rows correctly",
 "The score each program decrypts for a test row is the cubic sigmoid of the inner product of that row's (normalised) features with the trained weights, and the reported count is exactly the number of test rows whose score lies on the side of one half that matches their label.",
 ["inputs"], "every side/label combination at three magnitudes and every single feature with both signs, for several trained models, on every program",
 "the programs have no tests at all.",
 LR, [("inference and verdict", "lr/*.go main")],
 "exhaustive enumeration of decision sides, labels and features on the programs' own code over the conformance-checked cleartext model",
 "Scores and verdicts compared with the reference." + LRNOTE + TRUST)
