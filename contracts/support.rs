// the contract of check_image_size_overflow stands on the function; Verus discharges it (tools/verus_stage.py)
