"""Edits behind seeded/<id>/patch.diff (old text -> new text)."""
SEEDS = {}
def seed(id, prop, edits, needs, breaks):
    SEEDS[id] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks}
seed("p01-square-shared-factor", "P01", [("src/nucomp.h", "        mpz_fdiv_q(a1, a1, s);\n        mpz_mul(c1, c1, s);\n", "        mpz_fdiv_q(a1, a1, s);\n        if (mpz_cmp(a1, L) >= 0)\n            mpz_mul(c1, c1, s);\n")],
     "squaring a form with a small first coefficient that shares a factor with b", "squaring then returns a triple that is not a form of the discriminant")
seed("p01-huge-quotient", "P01", [("src/xgcd_partial.c", "         mpz_submul(co2, co1, q);\n", "         mpz_submul_ui(co2, co1, mpz_get_ui(q));\n")],
     "a partial-gcd quotient of 2^64 or more (operands with a tiny inverse coefficient)", "composition and squaring return a wrong element for such operands")
seed("p02-trailing-bytes", "P02", [("src/bqfc.c", "    return memcmp(canon_str, str, BQFC_FORM_SIZE);\n", "    return memcmp(canon_str, str, bqfc_get_compr_size(d_bits));\n")],
     "a discriminant shorter than 993 bits and bytes after the used part of the 100", "strict decoding accepts strings that are not the encoding of the form")
seed("p02-wide-b0", "P02", [("src/bqfc.c", "    mpz_import(out_c->b0, bytes, -1, 1, 0, 0, &str[offset]);\n", "    mpz_import(out_c->b0, 1, -1, 1, 0, 0, &str[offset]);\n")],
     "a form whose shared factor g takes two bytes and whose b0 is 256 or more", "a valid encoding is refused")
seed("p03-carry", "P03", [("src/create_discriminant.h", "    return HashPrime(seed, length, {0, 1, 2, length - 1}) * integer(-1);\n", "    return HashPrime(seed, length, {0, 1, 2, length - 1}) * integer(-1);\n"),
     ("src/proof_common.h", "            for (int i = (int) sprout.size() - 1; i >= 0; --i) {\n", "            for (int i = (int) sprout.size() - 1; i >= std::max(0, (int) sprout.size() - 4); --i) {\n")][1:],
     "a seed whose last four bytes are (nearly) all 0xff", "the stream wraps instead of carrying, giving another discriminant")
seed("p03-square-pseudoprime", "P03", [("src/primetest.h", "    int p, q, res = 0;\n", "    int p, q, res = 1;\n")],
     "a strong pseudoprime to base 2 for which no Lucas parameter exists (square of a Wieferich prime)", "a composite is declared prime")
seed("p04-count-wrap", "P04", [("src/verifier.h", "        x = xnew;\n        if (segment_iters > iterations) {\n            return false;\n        }\n        iterations -= segment_iters;\n    }\n\n    // Final forms", "        x = xnew;\n        iterations -= segment_iters;\n    }\n\n    // Final forms")],
     "segment counts that add up to the requested count only modulo 2^64", "a proof whose counts do not fit is accepted")
seed("p05-depth-free", "P05", [("src/verifier.h", "    if (depth > max_depth || proof_blob_len != form_size + static_cast<size_t>(depth) * segment_len) {\n", "    if (depth > max_depth || proof_blob_len < form_size + static_cast<size_t>(depth) * segment_len) {\n")],
     "challenge-only verification of a blob with more segments than the stated depth", "a blob of the wrong depth is accepted")
seed("p06-partial-on-shutdown", "P06", [("src/prover_slow.h", "                    // shutdown file doesn't exist, abort out\n                    return {};\n", "                    // shutdown file doesn't exist, abort out\n                    if (i == 0)\n                        return {};\n                    shutdown_file_path.clear();\n                    num_iterations = i + 1;\n")],
     "the shutdown file disappears while proving is under way", "a proof of a smaller count is returned instead of nothing")
seed("p06-wide-blocks", "P06", [("src/prover_slow.h", "        x = FastPowFormNucomp(x, D, integer(1 << k), L, reducer);\n", "        x = FastPowFormNucomp(x, D, integer(1 << 2 * k1), L, reducer);\n"), ("src/prover_slow.h", "    uint64_t k1 = k / 2;\n", "    uint64_t k1 = l > 1 ? k / 3 : k / 2;\n")],
     "more than ten million iterations (interleaved blocks)", "the residue classes are combined with the wrong weight and the witness is wrong")
seed("p07-shared-result", "P07", [("src/python_bindings/fastvdf.cpp", "        std::vector<uint8_t> result;\n        std::string shutdown_file_path_copy", "        static std::vector<uint8_t> result;\n        std::string shutdown_file_path_copy")],
     "two Python threads proving at the same time", "one caller receives the proof of the other")
seed("p07-c-escape", "P07", [("src/c_bindings/c_wrapper.cpp", "            return ByteArray  { resultData, result.size() };\n        } catch (...) {\n", "            return ByteArray  { resultData, result.size() };\n        } catch (const std::runtime_error&) {\n")],
     "a call of the C prover with an empty seed or an invalid size", "the exception leaves the C function and the process dies")
seed("p10-half-window", "P10", [("src/callback.h", "        position += ((exponent / power_2) % window_size) * size;\n", "        position += ((exponent / power_2) % (bucket == 0 ? window_size : window_size / 2)) * size;\n")],
     "a prover of a large segment that is between ten and twenty segments behind the squaring", "the segment's intermediates are overwritten while it is still being proved")
seed("p14-resume-lost", "P14", [("src/provers.h", "            is_paused = false;\n        }\n        cv.notify_one();\n    }\n\n    bool IsRunning", "            is_paused = false;\n        }\n    }\n\n    bool IsRunning")],
     "a segment proof that is paused, waits, and is resumed", "the proof never continues")
seed("p16-stop-paused", "P16", [("src/provers.h", "            if (is_paused) {\n                is_paused = false;\n            }\n        }\n        cv.notify_one();\n", "            if (is_paused) {\n                is_paused = false;\n            }\n        }\n")],
     "a stop while a segment proof has been put aside", "the session waits for the paused thread for ever and never says STOP")
seed("p15-wrapped-count", "P15", [("src/vdf_client.cpp", "        if (iters > (std::numeric_limits<uint64_t>::max() - digit) / 10) {\n", "        if (iters > std::numeric_limits<uint64_t>::max() / 10) {\n")],
     "an iteration message between 2^64 and 2^64+3", "the number wraps and is accepted as another count")
seed("p18-edge-digit", "P18", [("src/hw/vdf_driver.cpp", "    if (SIGNED && coeff >> (REDUNDANT_BITS - 1)) {\n", "    if (SIGNED && coeff > (1U << (REDUNDANT_BITS - 1))) {\n")],
     "a register image in which a signed digit has its least value", "the digit is read as positive and the coefficient is wrong")
seed("p18-third-engine", "P18", [("src/hw/hw_interface.cpp", "    hw_vdf_control(drv, idx_mask, 0);\n", "    hw_vdf_control(drv, idx_mask & 3, 0);\n")],
     "a frequency change while the third engine runs", "the third engine's clock is not stopped while the frequency is set")
seed("p19-restart-length", "P19", [("src/hw/hw_vdf_client.cpp", "                            vdf->target_iters - vdf->iters_offset, vdf->idx);\n", "                            vdf->target_iters, vdf->idx);\n")],
     "a refused value after the first interval, so that the engine is started again from the middle", "the engine is started for too many squarings and runs past the end of the session")
seed("p19-completed-clock", "P19", [("src/hw/hw_vdf_client.cpp", "                    stop_hw_vdf(client->drv, i);\n                    client->conns[i].state = IDLING;\n", "                    client->conns[i].state = IDLING;\n")],
     "a session whose engine reaches the end while the connection stays", "the engine stays switched on without a job to do")
seed("p12-round-late", "P12", [("src/vdf.h", "                    num_iterations += round_up;\n                    nweso->IncreaseConstants(num_iterations);\n", "                    nweso->IncreaseConstants(num_iterations);\n                    num_iterations += round_up;\n")],
     "the coarse sampling starts at a count that is not a multiple of 100 (a batch ended early)", "powers kept after the switch are found under another count")
seed("p11-resume-uncounted", "P11", [("src/vdf.h", "                    spawn_best = true;\n                    active_provers++;\n", "                    spawn_best = true;\n                    if (new_segment) {\n                        active_provers++;\n                    }\n")],
     "a put-aside segment that is resumed on a free thread while another segment waits", "more segment provers run at once than are allowed")
seed("p13-early-witness", "P13", [("src/vdf.h", "    while (!stopped && weso->iterations < iters) {\n", "    while (!stopped && weso->iterations + 1 < iters) {\n")],
     "a published count of exactly one less than requested when the proving thread looks", "the proof is built before the last squaring was made")
seed("p08-not-again", "P08", [("src/vdf.h", "            repeated_square_original(*weso->vdfo, f, D, L, num_iterations, batch_size, weso);\n", "            repeated_square_original(*weso->vdfo, f, D, L, num_iterations, batch_size, nullptr);\n")],
     "a batch in which a corruption was detected", "the listener keeps the values of the corrupted batch")
seed("p17-started-unref", "P17", [("src/hw/hw_proof.cpp", "            if (proof->flags & HW_VDF_PROOF_FLAG_STARTED) {\n                break;\n            }\n", "")],
     "a smaller request while the checkpoint below an accepted one is being computed", "the slot of the running checkpoint is given to another proof: a request is answered twice or with the values of another count")
