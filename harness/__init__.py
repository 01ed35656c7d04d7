REGISTRY = {
    "C01": "partition", "C02": "partition", "C03": "partition", "C29": "partition",
    "C09": "scatter", "C10": "scatter", "C11": "scatter", "C04": "halo", "C05": "halo", "C06": "halo", "C07": "multi", "C08": "multi",
    "C12": "views", "C13": "views", "C14": "views", "C27": "views", "C28": "views",
    "C15": "algebra", "C16": "algebra",
    "C17": "buffers", "C32": "capture",
    "C18": "timing", "C26": "mock",
    "C19": "zarrs", "C20": "zarrs", "C23": "storage", "C24": "storage", "C25": "text", "C30": "text", "C31": "text",
    "C21": "model", "C22": "model", "C33": "gt4py", "C34": "device",
    "C35": "partition", "C36": "partition", "C37": "optional", "C38": "multi", "C39": "views",
}
