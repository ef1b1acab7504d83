REGISTRY = {
    "C01": ("concurrency", "guarded"),
    "C02": ("concurrency", "deadlock"),
    "C05": ("http_errors", "bounds"),
    "C06": ("http_errors", "limits"),
    "C07": ("http_errors", "errors"),
    "C08": ("http_headers", "grammar"),
    "C09": ("http_chunks", "chunks"),
    "C13": ("http_body", "framing"),
    "C10": ("http_body", "body"),
    "C12": ("http_body", "completion"),
    "C14": ("http_fields", "fields"),
    "C18": ("algorithm", "bounds"),
    "C19": ("algorithm", "base64"),
    "C20": ("algorithm", "order"),
    "C21": ("algorithm", "coding"),
    "C22": ("spdy", "bounds"),
    "C24": ("spdy", "zlib"),
    "C23": ("spdy", "fields"),
}
REGISTRY["C03"] = ("plugins", "refcounts")
REGISTRY["C04"] = ("plugins", "instances")
REGISTRY["C39"] = ("routing", "routing")
REGISTRY["C35"] = ("sched", "sched")
REGISTRY["C36"] = ("sysproc", "process")
REGISTRY["C37"] = ("sysproc", "rights")
REGISTRY["C15"] = ("httpvalue", "values")
REGISTRY["C16"] = ("httpvalue", "first_line")
REGISTRY["C17"] = ("httpsend", "send")
REGISTRY["C40"] = ("httpsend", "dictionaries")
REGISTRY["C41"] = ("httpsend", "generated")
REGISTRY["C11"] = ("httpreset", "reset")
REGISTRY["C30"] = ("auth", "users")
REGISTRY["C31"] = ("auth", "authentication")
REGISTRY["C32"] = ("auth", "dispatch")
REGISTRY["C33"] = ("auth", "pages")
REGISTRY["C34"] = ("auth", "builtin")
REGISTRY["C25"] = ("conn", "c25")
REGISTRY["C27"] = ("conn", "c27")
REGISTRY["C26"] = ("writer", "c26")
REGISTRY["C28"] = ("files", "c28")
REGISTRY["C29"] = ("files", "c29")
REGISTRY["C38"] = ("uri", "c38")
