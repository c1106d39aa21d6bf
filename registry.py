# property -> module that contains its check
MODULES = {
    "C01": "harness.core_children",
    "C02": "harness.core_app",
    "C03": "harness.core_children",
    "C04": "harness.core_events",
    "C09": "harness.core_events",
    "C05": "harness.core_children",
    "C07": "harness.core_app",
    "C08": "harness.core_app",
    "C06": "harness.core_components",
    "C10": "harness.core_components",
    "C11": "harness.core_components",
    "C12": "harness.core_components",
    "C13": "harness.core_components",
    "C14": "harness.core_components",
    "C22": "harness.qt",
    "C23": "harness.qt",
    "C29": "harness.qt",
    "C32": "harness.qt",
    "C24": "harness.renderers",
    "C25": "harness.renderers",
    "C30": "harness.gfx",
    "C31": "harness.importer",
    "C26": "harness.core_components",
    "C28": "harness.core_components",
    "C15": "harness.cgx_templates",
    "C16": "harness.cgx_templates",
    "C17": "harness.cgx_templates",
    "C18": "harness.cgx_templates",
    "C19": "harness.cgx_templates",
    "C20": "harness.cgx_templates",
    "C21": "harness.cgx_templates",
    "C27": "harness.core_children",
    "C33": "harness.hosts",
    "C34": "harness.cli",
    "C35": "harness.cli",
    "C36": "harness.cgx_files",
    "C37": "harness.cgx_files",
    "C38": "harness.hosts",
    "C39": "harness.rerender",
}
NOTES = {}
NOT_APPLICABLE = {}
