"""C15: a temporary GDAL configuration is only in effect inside its block."""

from osgeo import gdal

from mc.core import Space, product, sequences

from aws.osml.gdal import GDALConfigEnv

gdal.UseExceptions()

A, B, N = "VERIF_OPT_A", "VERIF_OPT_B", "VERIF_OPT_N"
AWS = {"AWS_SECRET_ACCESS_KEY": "SecretAccessKey", "AWS_ACCESS_KEY_ID": "AccessKeyId", "AWS_SESSION_TOKEN": "SessionToken"}
KEYS = [A, B, N] + list(AWS)
CRED = {"SecretAccessKey": "s3cr3t", "AccessKeyId": "AKIA", "SessionToken": "tok"}
CRED2 = {"SecretAccessKey": "other", "AccessKeyId": "AKIB", "SessionToken": "tok2"}
CRED3 = {"SecretAccessKey": "third", "AccessKeyId": "AKIB", "SessionToken": "tok3"}


def read_config():
    return {k: gdal.GetConfigOption(k) for k in KEYS}


def env_options(i):
    """The options of environment i, as the model and the caller see them."""
    return [{A: "e0"}, {A: "e1", B: "e1b", N: 7}, {}][i]


def aws_options(cred):
    return {k: cred[v] for k, v in AWS.items()}


# enter env i / leave the innermost block normally / because of an exception / the body sets an option itself
ALPHABET = ["enter0", "enter1", "enter2", "exit", "raise", "setB", "creds", "renew"]


def well_formed(ops):
    depth = 0
    for op in ops:
        if op.startswith("enter"):
            depth += 1
        elif op in ("exit", "raise"):
            depth -= 1
            if depth < 0:
                return False
    return True


def histories(max_len):
    def gen():
        for ops in sequences(ALPHABET, max_len, 1):
            # histories that cannot happen, or that only repeat a shorter one, are not explored twice
            if well_formed(ops) and ops[-1] not in ("setB", "creds", "renew") and any(o.startswith("enter") for o in ops):
                for initial in ({}, {A: "0", B: "00"}, {A: "e0", "AWS_SECRET_ACCESS_KEY": "mine"}):
                    yield {"initial": initial, "ops": ops}

    return gen


def run(ctx, case):
    for k in KEYS:
        gdal.SetConfigOption(k, case["initial"].get(k))
    caller_dicts = [env_options(i) for i in range(2)]
    envs = [GDALConfigEnv(caller_dicts[0]), GDALConfigEnv(caller_dicts[1]), ctx.call(GDALConfigEnv().with_aws_credentials, CRED)]
    options = [env_options(0), env_options(1), aws_options(CRED)]
    for d in caller_dicts:
        d[A] = "changed by the caller afterwards"
        d["VERIF_OPT_B"] = "changed"
    model = {k: case["initial"].get(k) for k in KEYS}
    stack = []
    credentials = [CRED2, CRED3]

    def compare(where):
        actual = read_config()
        ctx.state(tuple(sorted(actual.items(), key=str)), len(stack))
        ctx.check(actual == model, f"GDAL options are wrong after {where}", actual=actual, expected=dict(model))

    try:
        for op in case["ops"] + ["exit"] * (
            sum(o.startswith("enter") for o in case["ops"]) - sum(o in ("exit", "raise") for o in case["ops"])
        ):
            if op.startswith("enter"):
                i = int(op[-1])
                ctx.call(envs[i].__enter__)
                stack.append((i, {k: model[k] for k in options[i]}))
                model.update({k: str(v) for k, v in options[i].items()})
            elif op in ("exit", "raise"):
                i, saved = stack.pop()
                error = ValueError("body failed")
                args = (ValueError, error, None) if op == "raise" else (None, None, None)
                swallowed = ctx.call(envs[i].__exit__, *args)
                if op == "raise":
                    ctx.check(not swallowed, "an exception raised inside the block was swallowed")
                model.update(saved)
            elif op == "setB":
                gdal.SetConfigOption(B, "body")
                model[B] = "body"
            elif op == "creds":
                same = ctx.call(envs[0].with_aws_credentials, dict(credentials[0]))
                ctx.check(same is envs[0], "with_aws_credentials did not return the environment")
                ctx.call(envs[0].with_aws_credentials, None)
                options[0] = {**options[0], **aws_options(credentials[0])}
                credentials.reverse()
            elif op == "renew":
                # the credentials of an environment that has some already are replaced
                renewed = dict(credentials[1])
                ctx.call(envs[2].with_aws_credentials, renewed)
                options[2] = aws_options(credentials[1])
                renewed["AccessKeyId"] = "changed by the caller afterwards"
            compare(op)
        compare("all the blocks ended")
    finally:
        for k in KEYS:
            gdal.SetConfigOption(k, None)


def run_with(ctx, case):
    """The same guarantee through the with statement, with the exception that ends the block."""
    gdal.SetConfigOption(A, case["initial"])
    try:
        body = []
        caught = None
        try:
            with GDALConfigEnv({A: case["value"]}):
                ctx.transitions += 1
                body.append(gdal.GetConfigOption(A))
                if case["nested"]:
                    with GDALConfigEnv({A: "inner", B: "x"}).with_aws_credentials(CRED if case["creds"] else None):
                        body.append(gdal.GetConfigOption(A))
                        body.append(gdal.GetConfigOption("AWS_SESSION_TOKEN"))
                        if case["error"] == "inner":
                            raise KeyError("inner")
                    body.append(gdal.GetConfigOption(A))
                if case["error"] == "outer":
                    raise OSError("outer")
        except (KeyError, OSError) as e:
            caught = type(e).__name__
        want = [str(case["value"])]
        if case["nested"]:
            want += ["inner", CRED["SessionToken"] if case["creds"] else None]
            if case["error"] != "inner":
                want.append(str(case["value"]))
        ctx.check(body == want, "options inside the block", body=body, want=want)
        error = case["error"] if case["nested"] or case["error"] != "inner" else None
        ctx.check(caught == {"inner": "KeyError", "outer": "OSError", None: None}[error], "exception propagation", caught=caught)
        after = read_config()
        ctx.state("with", str(case))
        ctx.check(after == {**{k: None for k in KEYS}, A: case["initial"]}, "options after the block", after=after)
    finally:
        for k in KEYS:
            gdal.SetConfigOption(k, None)


def spaces(tier):
    depth = 5 if tier == "quick" else 6
    return [
        Space(
            "with_statement",
            lambda: product(
                initial=[None, "0"],
                value=["v", 1, 2.5, "", True],
                nested=[False, True],
                creds=[False, True],
                error=[None, "inner", "outer"],
            ),
            run_with,
            bound="every combination of initial value, value, nesting, credentials and point of failure",
        ),
        Space("histories", histories(depth), run, bound=f"every well-formed enter/exit/raise/modify history of length <= {depth}"),
    ]
