import specs.core, specs.shell, specs.parse, specs.paths, specs.tree, specs.cmds, specs.collapse, specs.names, specs.print, specs.inv, specs.service, specs.auto, specs.builtin, specs.life
