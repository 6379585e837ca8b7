from . import compare, decode, fault, header, ids, keystore, merkle, package, patch, plug, pymod, resource, sign, together, tool, transport, valid, vtree
CHECKS = {
    "C01": lambda: header.run_tables("C01", "meta"),
    "C02": lambda: header.run_tables("C02", "part"),
    "C03": valid.run,
    "C04": lambda: package.run_edit("C04"),
    "C05": lambda: package.run_edit("C05"),
    "C06": sign.run_verify,
    "C07": sign.run_outside,
    "C08": merkle.run,
    "C09": vtree.run,
    "C10": transport.run_round,
    "C11": transport.run_refuse,
    "C12": patch.run_apply,
    "C13": decode.run,
    "C14": fault.run,
    "C15": keystore.run,
    "C16": ids.run,
    "C17": tool.run,
    "C18": compare.run,
    "C19": patch.run_diff,
    "C20": pymod.run,
    "C21": resource.run,
    "C22": plug.run,
    "C23": together.run,
}
