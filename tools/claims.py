na["F09"] = "The reference is a closed-source implementation; nothing in the source states the expected ids, so there is nothing to decide statically."
na["T13"] = "Response times are a runtime quantity no static argument in reach can bound."
