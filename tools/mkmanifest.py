#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IMG = ("Every call recorded from the real code is judged by TLC against the explicit specification specs/ImageOps.tla (values, shape, everything outside the "
       "region, other images, exceptions); buffers are red-zoned by AddressSanitizer. Assurance is over the calls generated (seeded, sizes up to 150 wide), "
       "not a proof; trusts TLC, the trace recorder and the compiler.")
TECH = "TLA+ trace validation with TLC of recorded calls of the real code (specs/ImageOps.tla, ImageTrace.tla)"

CLAIMS = {p: (TECH, "model_checking", IMG) for p in ("C04", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C16", "C24")}
CLAIMS.update({p: ("TLA+ model of the pool (specs/ThreadPoolImpl.tla) explored exhaustively by TLC against specs/ThreadPool.tla, and TLC validation of executions of the "
                   "real pool recorded under a deterministic scheduler (ThreadPoolTrace.tla)", "model_checking",
                   "Exhaustive over the interleavings of the model's programs (up to 2 clients, 3 threads, resize/stop/clear/remove); the real code is bound to it by some "
                   "40000 executions per quick run whose interleavings a seeded scheduler chooses at every synchronisation and atomic access, so assurance for the code "
                   "itself is over the schedules sampled. Trusts TLC and the scheduler, sequential consistency apart from reported data races.") for p in ("C01", "C02", "C03")})
CLAIMS["C05"] = ("TLA+ model of image objects explored exhaustively by TLC (specs/ImageObjectModel.tla), its transitions replayed on the real class, and TLC validation of "
                 "recorded histories (ImageObjectTrace.tla)", "model_checking",
                 "The model is exhaustive for two images of small geometry; the real class runs a sample of the model's transitions (all of them in the thorough run) and random "
                 "histories over four images; every state is judged by TLC, memory by AddressSanitizer and an allocation ledger. Larger geometries are sampled.")
CLAIMS["C06"] = ("TLA+ model of the buddy allocator explored exhaustively by TLC (specs/AllocatorModel.tla against Allocator.tla), its transitions replayed on the real pool, and "
                 "TLC validation of recorded histories of one and several threads (AllocatorTrace.tla)", "model_checking",
                 "The model is exhaustive for small reserves; the real pool runs its transitions, random histories with reserves up to 1 KB, and histories of several threads under "
                 "a deterministic scheduler. Larger pools and other schedules are sampled only.")
CLAIMS["C15"] = ("TLA+ model of the registry and the dispatch explored exhaustively by TLC (specs/DispatchModel.tla against Dispatch.tla), its registries replayed on the real "
                 "library, and TLC validation of recorded histories (DispatchTrace.tla, ImageOps.tla)", "model_checking",
                 "The model is exhaustive for three image types and one function; the real library runs every mix of types in an eighth of the model's registries (all of them in "
                 "the thorough run) and random histories over five types and all generic functions. Results are judged against ImageOps.tla as for plain images.")
BLOB = ("The model of the flood fill is exhaustive for small pictures (every picture of up to 4 x 3 pixels); the real code is judged by TLC on exhaustively enumerated pictures "
        "(4 x 4: a quarter each quick run, all of them in the thorough run) and on random pictures up to 13 x 11 with padding and offsets. Bigger pictures are not covered "
        "apart from long lines.")
CLAIMS["C17"] = ("TLA+ definition of blobs (specs/Blob.tla), model of the flood fill explored exhaustively by TLC against it (BlobModel.tla), and TLC validation of recorded "
                 "searches and measurements of the real code (BlobTrace.tla)", "model_checking", BLOB)
CLAIMS["C18"] = (CLAIMS["C17"][0].replace("measurements", "selections"), "model_checking",
                 "Searches with random limits, sorting and selection are judged by TLC against the components and measures of Blob.tla, on random pictures up to 13 x 11; values "
                 "within a few thousandths of a circularity or elongation limit may go either way.")
CLAIMS["C19"] = ("TLA+ definition of edges (specs/Edge.tla), model of the search along a line explored exhaustively by TLC against it (EdgeModel.tla), and TLC validation of "
                 "recorded searches of the real code (EdgeTrace.tla)", "model_checking",
                 "The model is exhaustive for profiles of 6 pixels over few intensities; the real code is judged by TLC on some 25000 random searches (profiles up to 24 pixels, "
                 "all directions, kinds, groups, skips, offsets, float and double). Trusts TLC and the recorder.")
CLAIMS["C20"] = ("TLA+ specification of image files (specs/Bitmap.tla) and TLC validation of recorded savings and loadings of the real code (BitmapTrace.tla)", "model_checking",
                 "Images of up to 17 x 13 pixels of all colour counts, paddings, regions and formats, and a few of several megabytes; PNG and JPEG files are judged by what is loaded "
                 "again, JPEG with a tolerance. Trusts TLC, libpng, libjpeg and the recorder.")
CLAIMS["C21"] = ("TLA+ specification of bitmap files (specs/Bitmap.tla), model of the loader explored exhaustively by TLC against it (BitmapModel.tla), its files given to the real "
                 "loader, and TLC validation of what it returns (BitmapTrace.tla)", "model_checking",
                 "All 10300 files of the model (every header field at its interesting values, one at a time) and random damage; files of some kilobytes "
                 "under AddressSanitizer.")
CLAIMS["C10"] = (TECH, "model_checking", IMG.replace("buffers are red-zoned by AddressSanitizer", "the functions run on the CPU device of pocl")
                 + " No OpenCL GPU or CUDA device exists here; CUDA code is not covered.")
MATH = ("The design is exhaustive over small models; the real code is judged by TLC on seeded random inputs of small sizes, chosen so that exact results are integers or "
        "rationals; floating-point results get a small tolerance. Trusts TLC and the recorder.")
CLAIMS["C22"] = ("TLA+ specification of the transforms (specs/Transforms.tla), models explored exhaustively by TLC (TransformsModel.tla), and TLC validation of recorded "
                 "transforms of the real code (TransformsTrace.tla)", "model_checking", MATH)
CLAIMS["C23"] = ("TLA+ specification of light correction (specs/Light.tla), model explored exhaustively by TLC (LightModel.tla), and TLC validation of recorded histories of "
                 "the real code (LightTrace.tla)", "model_checking", MATH)
CLAIMS["C25"] = ("TLA+ specification of the Fourier algebra (specs/Fourier.tla), model explored exhaustively by TLC (FourierModel.tla), and TLC validation of recorded "
                 "operations of the real code (FourierTrace.tla)", "model_checking", MATH)
CLAIMS["C26"] = ("TLA+ specification of the geometry (specs/Geometry.tla), model explored exhaustively by TLC (GeometryModel.tla), and TLC validation of recorded calls of "
                 "the real code (GeometryTrace.tla)", "model_checking", MATH)
CLAIMS["C27"] = ("TLA+ specification of PNG and JPEG files (specs/Codec.tla), model of the conversions and of failures explored exhaustively by TLC against it (CodecModel.tla), its "
                 "files given to the real library, and TLC validation of recorded loadings and savings (CodecTrace.tla)", "model_checking",
                 "The model is exhaustive for its kinds of files and points of failure, all of which the real code runs; contents, sizes (up to 25 x 19) and damages are sampled. What "
                 "JPEG compression means is not modelled: pictures are compared with libjpeg's within a tolerance of 4. The order of the channels of JPEG files is a known finding.")
CLAIMS["C28"] = ("TLA+ specification of OpenCL devices and their images (specs/Device.tla), model of the device manager explored exhaustively by TLC against it (DeviceModel.tla), "
                 "the model's histories replayed in the real library, and TLC validation of these and of random histories (DeviceTrace.tla)", "model_checking",
                 "The devices are pocl's on the processor, the same one two or three times; no GPU exists here. The model is exhaustive for two devices, two threads and short histories; "
                 "a quick run replays a quarter of its histories, a thorough one all.")
NOT_APPLICABLE = {}
PENDING = "check under construction"


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    for p in props:
        if p in CLAIMS:
            t, level, note = CLAIMS[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                                "evidence_file": "evidence/%s.json" % p, "technique": t, "level": level, "level_note": note})
        else:
            m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, PENDING)})
    m["notes"] = "No hooks in /repo: the harnesses in /verif compile /repo's sources themselves. See DESIGN.md and known-findings.txt."
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
