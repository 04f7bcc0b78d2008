"""Per-property configuration: case counts [asan, opt] of the quick tier, modules, rules."""
CHECKS = {
    "C01": dict(cases=[40000, 120000], rule="at least two different related quadrants", technique="property-based testing: generated related quadrants, exact integer box and bit interleaving oracle"),
    "C02": dict(cases=[30000, 90000], rule="some quadrant has a neighbor across a tree boundary"),
    "C03": dict(cases=[20000, 60000], rule="more than one tree, or a change that matters"),
    "C04": dict(cases=[30000, 120000], rule="a round trip, a changed or truncated image, an ABAQUS file, or more than one process"),
    "C05": dict(cases=[4000, 14000], rule="more than one tree and more than one part per dimension"),
    "C06": dict(mods=["history"], cases=[16000, 40000], rule="at least two operations of which one changes the mesh or the partition"),
    "C07": dict(mods=["history"], cases=[16000, 40000], rule="some refinement splits a leaf"),
    "C08": dict(mods=["history"], cases=[16000, 40000], rule="some coarsening merges a family"),
    "C09": dict(mods=["history"], cases=[16000, 40000], rule="balance splits a leaf, or the seed primitive is asked about a pair at least two levels apart"),
    "C10": dict(mods=["history"], cases=[16000, 40000], rule="some partition moves a leaf to another process"),

    "C12": dict(cases=[9000, 26000], rule="some process has a ghost"),
    "C13": dict(cases=[9000, 26000], rule="some process has a ghost"),
    "C14": dict(cases=[3000, 8000], rule="some interface hangs or is shared between processes"),
    "C15": dict(mods=["history"], cases=[3000, 8000], rule="some node hangs or is shared between processes"),
    "C16": dict(cases=[3000, 8000], rule="some node hangs or is shared between processes"),
    "C17": dict(cases=[3000, 8000], rule="some interface hangs or is shared between processes"),
    "C18": dict(cases=[6000, 16000], rule="more than one leaf and more than one process on either side, or a file with invalid contents"),
    "C24": dict(dims="2", mods=["history"], cases=[4500, 15000], rule="more than one process"),
    "C29": dict(cases=[2000, 6000], rule="more than one leaf and at least one cell or point array"),
    "C31": dict(cases=[20000, 60000], rule="overlapping entries, a gap or refinement to fill, or more than one process"),
    "C30": dict(dims="3", cases=[8000, 24000], rule="more than one tetrahedron"),
    "C28": dict(cases=[16000, 48000], rule="a shape with at least two evaluations across tree boundaries, a vertex based or single tree shape, or a forest with hanging nodes"),
    "C27": dict(cases=[3000, 9000], rule="some message is sent between processes"),
    "C26": dict(cases=[12000, 50000], rule="a leaf was split because of its points"),
    "C23": dict(cases=[2000, 6500], rule="some point hangs or more than one process"),
    "C22": dict(cases=[1200, 4000], rule="more than one process and at least one cycle changes the forest"),
    "C25": dict(cases=[12000, 40000], rule="more than one leaf, and for a rebuilt forest at least one leaf added by hand"),
    "C21": dict(cases=[8000, 26000], rule="more than one leaf and more than one process"),
    "C20": dict(cases=[12000, 40000], rule="more than one process and some data change the process"),
    "C19": dict(cases=[6000, 20000], rule="more than one leaf and more than one process"),
    "C11": dict(mods=["history"], cases=[6000, 16000], rule="two runs on different process counts with an effective operation, or six meshes that differ in one leaf"),
}
