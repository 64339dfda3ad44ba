TF = "the code is a TensorFlow graph (%s) and TensorFlow is not installed here, so neither the real code nor a replay of a counterexample can run; a stand-in of that many tensor operations would be a model of TensorFlow rather than a check of this code"
NA = {
    "G06": "the implementation is built on BoringSSL's big-number library, whose headers and code are not in the sandbox (the build leaves the file out), so it cannot be compiled to the representation that is executed symbolically",
    "P12": "the code is a thin layer over the merge and group-by of pandas and dask (dask is not installed); the joins themselves happen inside those libraries' native hash tables, which the Python engine cannot execute symbolically",
    "P14": TF % "scatter, gather and reductions over range images",
    "P15": TF % "argmin, sorting and gather over batched polygons",
    "P17": TF % "masked reductions, matching and histograms over batches of keypoints",
    "P18": TF % "bilinear resampling, scatter and rendering of grids, and Keras metrics",
}
