MODULES = (
    "contracts.shards",
    "contracts.mapds",
    "contracts.iters",
    "contracts.packs",
    "contracts.streams",
    "contracts.multi",
    "contracts.shuffles",
    "contracts.orders",
    "contracts.prefetches", "contracts.loaders", "contracts.pipelines",
    "contracts.arrays",
    "contracts.processes",
)
